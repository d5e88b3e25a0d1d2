From 8241b24b2a59b555858740f228b1b573a151a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/37] fix: keep only the used elements of a sequence
 constructed

Elements reserved but not used were default constructed and then overwritten
by a placement new, leaking memory; moving a sequence copied it; pushing an
element of the sequence itself read freed memory; a large resize overflowed
the 32 bit size computation; a failed copy or resize leaked or left
unconstructed elements.
---
 include/xtypes/SequenceInstance.hpp | 219 ++++++++++++++--------------
 include/xtypes/SequenceType.hpp     |   2 +-
 2 files changed, 108 insertions(+), 113 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..9756568 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -19,8 +19,12 @@
 
 #include <xtypes/DynamicType.hpp>
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
+#include <limits>
+#include <memory>
+#include <new>
 
 namespace eprosima {
 namespace xtypes {
@@ -39,7 +43,6 @@ public:
             uint32_t capacity = 0)
         : block_size_(content.memory_size())
         , capacity_(capacity)
-        , size_(0)
     {
         try
         {
@@ -52,7 +55,7 @@ public:
             content_ = content.clone();
         }
 
-        init_memory(memory_, capacity_);
+        memory_ = allocate(capacity_);
     }
 
     SequenceInstance(
@@ -60,14 +63,9 @@ public:
         : content_(other.content_)
         , block_size_(other.block_size_)
         , capacity_(other.capacity_)
-        , size_(other.size_)
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        memory_ = allocate(capacity_);
+        copy_content(other, other.size_);
     }
 
     /// \brief Copy constructor from a SequenceInstance with other but compatible content.
@@ -81,7 +79,6 @@ public:
             uint32_t bounds)
         : block_size_(content.memory_size())
         , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
     {
         try
         {
@@ -94,23 +91,22 @@ public:
             content_ = content.clone();
         }
 
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        memory_ = allocate(capacity_);
+        copy_content(other, bounds == 0 ? other.size_ : std::min(other.size_, bounds));
     }
 
+    /// \brief Takes the elements of other, which remains as a valid empty sequence.
     SequenceInstance(
             SequenceInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
@@ -127,13 +123,13 @@ public:
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
             {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
+                comp &= content_->compare_instance(get_element(i), other.get_element(i));
             }
             return comp;
         }
         else //optimization when the type is primitive
         {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            return size_ == 0 || std::memcmp(memory_, other.memory_, size_t(size_) * block_size_) == 0;
         }
     }
 
@@ -150,17 +146,20 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
-        if (memory_ == nullptr || size_ == capacity_)
+        if (size_ < capacity_)
         {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            content_->copy_instance(get_element(size_), instance);
+        }
+        else
+        {
+            // The new element is copied before moving the others, as it can be one of them (or be part of it).
+            size_t new_capacity = bounded_capacity((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
+            std::unique_ptr<uint8_t[]> new_memory(allocate(new_capacity));
+            content_->copy_instance(new_memory.get() + size_t(size_) * block_size_, instance);
+            replace_memory(new_memory.release(), new_capacity);
         }
 
-        uint8_t* place = memory_ + size_ * block_size_;
-        content_->copy_instance(place, instance);
-
-        size_++;
-
-        return place;
+        return get_element(size_++);
     }
 
     /// \brief Resize the sequence. All new elements will be default-initialized.
@@ -175,15 +174,25 @@ public:
             return;
         }
 
-        realloc(new_size, bounds);
-
-        for (size_t i = size_; i < new_size; i++)
+        if (capacity_ < new_size)
         {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
+            size_t new_capacity = bounded_capacity(new_size, bounds);
+            replace_memory(allocate(new_capacity), new_capacity);
         }
 
-        size_ = new_size;
+        uint32_t old_size = size_;
+        try
+        {
+            for (; size_ < new_size; size_++)
+            {
+                content_->construct_instance(get_element(size_));
+            }
+        }
+        catch (...)
+        {
+            destroy_content(old_size);
+            throw;
+        }
     }
 
     /// \brief Index access operator.
@@ -194,7 +203,7 @@ public:
     {
         xtypes_assert(index < size_,
                 "operator [" << index << "] is out of bounds.");
-        return memory_ + index * block_size_;
+        return get_element(index);
     }
 
     /// \brief Size of the sequence.
@@ -214,118 +223,104 @@ private:
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
 
-    void realloc(
+    // Only the first size_ elements of memory_ are constructed, the others are just reserved memory.
+
+    static size_t bounded_capacity(
             size_t desired_capacity,
             uint32_t bounds)
     {
-        size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
-        uint8_t* new_memory = nullptr;
-        init_memory(new_memory, new_capacity);
+        return bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+    }
 
-        move_content(new_memory, memory_);
+    uint8_t* get_element(
+            size_t index) const
+    {
+        return memory_ + index * block_size_;
+    }
 
-        free_memory();
-        memory_ = new_memory;
-        capacity_ = new_capacity;
+    uint8_t* allocate(
+            size_t capacity) const
+    {
+        if (capacity > std::numeric_limits<uint32_t>::max())
+        {
+            throw std::bad_alloc();
+        }
+        return capacity > 0 ? new uint8_t[capacity * block_size_]() : nullptr;
     }
 
-    void init_memory(
-            uint8_t*& memory,
-            uint32_t size)
+    void replace_memory(
+            uint8_t* new_memory,
+            size_t new_capacity)
     {
-        if (memory == nullptr || size != capacity_)
+        if (content_->is_constructed_type())
         {
-            if (memory != nullptr)
-            {
-                free_memory();
-            }
-            memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
-            if (memory != nullptr)
+            for (uint32_t i = 0; i < size_; i++)
             {
-                memset(memory, 0, size * block_size_);
-                for (uint32_t idx = 0; idx < size; ++idx)
-                {
-                    content_->construct_instance(memory + idx * block_size_);
-                }
+                content_->move_instance(new_memory + size_t(i) * block_size_, get_element(i), false);
+                content_->destroy_instance(get_element(i));
             }
         }
+        else if (size_ > 0) //optimization when the type is primitive
+        {
+            std::memcpy(new_memory, memory_, size_t(size_) * block_size_);
+        }
+
+        delete[] memory_;
+        memory_ = new_memory;
+        capacity_ = uint32_t(new_capacity);
     }
 
+    // Called from the constructors: nothing remains allocated if it fails.
     void copy_content(
             const SequenceInstance& other,
-            uint32_t bounds)
+            uint32_t count)
     {
         size_t other_block_size = other.content_->memory_size();
 
-        // Check bytes to copy
-        uint32_t min_capacity = std::min(capacity_, other.capacity_);
-        if (min_capacity == 0)
-        {
-            min_capacity = std::max(capacity_, other.capacity_);
-        }
-        uint32_t min_size = min_capacity == 0 ? other.size_ : std::min(min_capacity, other.size_);
-
-        if (bounds != 0)
+        if (content_->is_constructed_type() || content_->kind() != other.content_->kind())
         {
-            // Keep in mind our bounds
-            min_size = std::min(min_size, bounds);
-        }
-
-        if (memory_ == nullptr || // Unbounded sequences could reach this point without reserving memory yet.
-                min_size > capacity_)
-        {
-            realloc(min_size, bounds);
-        }
-
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
-        {
-            for (uint32_t i = 0; i < min_size; i++)
+            try
             {
-                content_->copy_instance_from_type(
-                    memory_ + i * block_size_,
-                    other.memory_ + i * other_block_size,
-                    *other.content_);
+                for (; size_ < count; size_++)
+                {
+                    content_->copy_instance_from_type(
+                        get_element(size_),
+                        other.memory_ + size_t(size_) * other_block_size,
+                        *other.content_);
+                }
+            }
+            catch (...)
+            {
+                free_memory();
+                throw;
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else if (count > 0) //optimization when the type is the same primitive
         {
-            std::memcpy(memory_, other.memory_, min_size * block_size_);
+            std::memcpy(memory_, other.memory_, size_t(count) * block_size_);
         }
-        size_ = min_size;
+        size_ = count;
     }
 
-    void move_content(
-            uint8_t* target,
-            uint8_t* source)
+    // Destroys the elements from new_size on.
+    void destroy_content(
+            uint32_t new_size)
     {
-        if (source != nullptr)
+        if (content_->is_constructed_type())
         {
-            if (content_->is_constructed_type())
-            {
-                for (uint32_t i = 0; i < size_; i++)
-                {
-                    content_->move_instance(target + i * block_size_, source + i * block_size_, true);
-                }
-            }
-            else //optimization when the type is primitive
+            for (uint32_t i = size_; i > new_size; i--)
             {
-                std::memmove(target, source, size_ * block_size_);
+                content_->destroy_instance(get_element(i - 1));
             }
         }
+        size_ = new_size;
     }
 
     void free_memory()
     {
         if (memory_ != nullptr)
         {
-            if (content_->is_constructed_type())
-            {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
-                {
-                    content_->destroy_instance(memory_ + i * block_size_);
-                }
-            }
-
+            destroy_content(0);
             delete[] memory_;
             memory_ = nullptr;
         }
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..3be6830 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From fa9ac8bfbcf0e73ed3fc16d993cc9b519048d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 02/37] fix: keep only the used entries of a map constructed

Reserved entries were default constructed and then overwritten, leaking
memory; moving a map copied it; a failed insertion left a broken entry;
copying from a map with another content type kept the source memory layout.
---
 include/xtypes/MapInstance.hpp | 257 ++++++++++++++-------------------
 include/xtypes/MapType.hpp     |   5 +-
 2 files changed, 114 insertions(+), 148 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..f95bd12 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -19,8 +19,12 @@
 
 #include <xtypes/PairType.hpp>
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
+#include <limits>
+#include <memory>
+#include <new>
 
 namespace eprosima {
 namespace xtypes {
@@ -39,7 +43,6 @@ public:
             uint32_t capacity = 0)
         : block_size_(content.memory_size())
         , capacity_(capacity)
-        , size_(0)
     {
         std::shared_ptr<const DynamicType> tmp;
         try
@@ -53,7 +56,7 @@ public:
 
         content_ = std::static_pointer_cast<const PairType>(std::move(tmp));
 
-        init_memory(memory_, capacity_);
+        memory_ = allocate(capacity_);
     }
 
     MapInstance(
@@ -61,45 +64,37 @@ public:
         : content_(other.content_)
         , block_size_(other.block_size_)
         , capacity_(other.capacity_)
-        , size_(other.size_)
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        memory_ = allocate(capacity_);
+        copy_content(other, other.size_);
     }
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
-        , block_size_(content_->memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : MapInstance(content, bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        copy_content_from_type(other);
     }
 
+    /// \brief Takes the entries of other, which remains as a valid empty map.
     MapInstance(
             MapInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
@@ -116,13 +111,13 @@ public:
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
             {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
+                comp &= content_->compare_instance(get_element(i), other.get_element(i));
             }
             return comp;
         }
         else //optimization when the pair are both primitive
         {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            return size_ == 0 || std::memcmp(memory_, other.memory_, size_t(size_) * block_size_) == 0;
         }
     }
 
@@ -140,18 +135,34 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
-        if (memory_ == nullptr || size_ == capacity_)
+        size_t index = find_index(instance);
+        xtypes_assert(index == size_ || hash(instance) != hash(get_element(index)), "Key already exists.");
+
+        // The new entry is built before touching the others, as the key can be part of one of them.
+        if (size_ < capacity_)
         {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            std::unique_ptr<uint8_t[]> entry(allocate(1));
+            construct_entry(entry.get(), instance);
+            place_entry(entry.get(), index);
+        }
+        else
+        {
+            size_t new_capacity = (capacity_ > 0) ? size_t(capacity_) * 2 : 1;
+            if (bounds > 0)
+            {
+                new_capacity = std::min(new_capacity, size_t(bounds));
+            }
+            std::unique_ptr<uint8_t[]> new_memory(allocate(new_capacity));
+            construct_entry(new_memory.get() + index * block_size_, instance);
+            move_content(new_memory.get(), memory_, index);
+            move_content(new_memory.get() + (index + 1) * block_size_, memory_ + index * block_size_, size_ - index);
+            delete[] memory_;
+            memory_ = new_memory.release();
+            capacity_ = uint32_t(new_capacity);
+            size_++;
         }
 
-        uint8_t* place = create_place(instance);
-        content_->first().copy_instance(place, instance);
-        content_->second().construct_instance(place + content_->first().memory_size());
-
-        size_++;
-
-        return place;
+        return get_element(index);
     }
 
     /// \brief Key access operator.
@@ -216,146 +227,103 @@ private:
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
 
-    void realloc(
-            size_t desired_capacity,
-            uint32_t bounds)
-    {
-        size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
-        uint8_t* new_memory = nullptr;
-        init_memory(new_memory, new_capacity);
-
-        move_content(new_memory, memory_, true);
+    // Only the first size_ entries of memory_ are constructed, the others are just reserved memory.
 
-        free_memory();
-        memory_ = new_memory;
-        capacity_ = new_capacity;
-    }
-
-    void init_memory(
-            uint8_t*& memory,
-            uint32_t size)
+    uint8_t* allocate(
+            size_t capacity) const
     {
-        if (memory == nullptr || size != capacity_)
+        if (capacity > std::numeric_limits<uint32_t>::max())
         {
-            if (memory != nullptr)
-            {
-                free_memory();
-            }
-            memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
-            if (memory != nullptr)
-            {
-                memset(memory, 0, size * block_size_);
-                for (uint32_t idx = 0; idx < size; ++idx)
-                {
-                    content_->construct_instance(memory + idx * block_size_);
-                }
-            }
+            throw std::bad_alloc();
         }
+        return capacity > 0 ? new uint8_t[capacity * block_size_]() : nullptr;
     }
 
-    void copy_content(
-            const MapInstance& other,
-            uint32_t bounds)
+    void construct_entry(
+            uint8_t* entry,
+            const uint8_t* key) const
     {
-        size_t other_first_size = other.content_->first().memory_size();
-        size_t other_second_size = other.content_->second().memory_size();
-
-        // Check bytes to copy
-        uint32_t min_capacity = std::min(capacity_, other.capacity_);
-        if (min_capacity == 0)
+        content_->first().copy_instance(entry, key);
+        try
         {
-            min_capacity = std::max(capacity_, other.capacity_);
+            content_->second().construct_instance(entry + content_->first().memory_size());
         }
-        uint32_t min_size = min_capacity == 0 ? other.size_ : std::min(min_capacity, other.size_);
+        catch (...)
+        {
+            content_->first().destroy_instance(entry);
+            throw;
+        }
+    }
 
-        if (bounds != 0)
+    // Moves entry into the index position, there must be reserved memory for it.
+    void place_entry(
+            uint8_t* entry,
+            size_t index)
+    {
+        for (size_t i = size_; i > index; --i)
         {
-            // Keep in mind our bounds
-            min_size = std::min(min_size, bounds);
+            move_content(get_element(i), get_element(i - 1), 1);
         }
+        move_content(get_element(index), entry, 1);
+        size_++;
+    }
 
-        if (memory_ == nullptr || // Unbounded maps could reach this point without reserving memory yet.
-                min_size > capacity_)
+    // Moves count entries into not constructed memory.
+    void move_content(
+            uint8_t* target,
+            uint8_t* source,
+            size_t count) const
+    {
+        for (size_t i = 0; i < count; ++i)
         {
-            realloc(min_size, bounds);
+            content_->move_instance(target + i * block_size_, source + i * block_size_, false);
+            content_->destroy_instance(source + i * block_size_);
         }
+    }
 
-        if (content_->first().is_constructed_type()
-                || content_->second().is_constructed_type()
-                || content_->first().memory_size() != other_first_size
-                || content_->second().memory_size() != other_second_size)
+    // Called from the constructors: nothing remains allocated if it fails.
+    void copy_content(
+            const MapInstance& other,
+            uint32_t count)
+    {
+        try
         {
-            for (uint32_t i = 0; i < min_size; i++)
+            for (; size_ < count; ++size_)
             {
-                content_->copy_instance_from_type(
-                    memory_ + i * block_size_,
-                    other.memory_ + i * other.content_->memory_size(),
-                    *other.content_);
+                content_->copy_instance(get_element(size_), other.get_element(size_));
             }
         }
-        else //optimization when the pair are both primitive with same size
+        catch (...)
         {
-            std::memcpy(memory_, other.memory_, min_size * block_size_);
+            free_memory();
+            throw;
         }
-        size_ = min_size;
     }
 
-    void move_content(
-            uint8_t* target,
-            uint8_t* source,
-            bool overlap = false)
+    // Entries are placed one by one, as the conversion of the keys can change their order.
+    void copy_content_from_type(
+            const MapInstance& other)
     {
-        if (source != nullptr)
+        std::unique_ptr<uint8_t[]> entry(allocate(1));
+        for (uint32_t i = 0; i < other.size_ && size_ < capacity_; ++i)
         {
-            if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+            content_->copy_instance_from_type(entry.get(), other.get_element(i), *other.content_);
+            size_t index = find_index(entry.get());
+            if (index == size_ || hash(entry.get()) != hash(get_element(index)))
             {
-                if (overlap && check_overlap(target, source))
-                {
-                    // Creating a place
-                    uint32_t to_move = size_ - get_key_index(source);
-                    for (uint32_t i = to_move; i > 0; --i)
-                    {
-                        content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, true);
-                    }
-                }
-                else
-                {
-                    // Moving full memory
-                    for (uint32_t i = 0; i < size_; ++i)
-                    {
-                        content_->move_instance(target + i * block_size_, source + i * block_size_, true);
-                    }
-                }
+                place_entry(entry.get(), index);
             }
-            else //optimization when the pair are both primitive
+            else
             {
-                std::memmove(target, source, (size_ - get_key_index(source)) * block_size_);
+                content_->destroy_instance(entry.get());
             }
         }
     }
 
-    bool check_overlap(
-            const uint8_t* target,
-            const uint8_t* source) const
+    size_t find_index(
+            const uint8_t* key_instance) const
     {
-        uint8_t* end = get_element(size_);
-        return source >= memory_ && target > source && end >= target; // target and source are inside the block of memory
-    }
-
-    uint8_t* create_place(
-            const uint8_t* instance)
-    {
-        uint8_t* place = find_place(instance);
-        xtypes_assert(
-            size_ == 0 ||
-            place == get_element(size_) ||     // Insert at the end
-            hash(instance) != hash(place),
-            "Key already exists.");
-        if (place != get_element(size_))
-        {
-            move_content(place + block_size_, place, true);
-        }
-        return place;
+        return size_ > 0 ? (find_place(key_instance) - memory_) / block_size_ : 0;
     }
 
     uint8_t* find_place(
@@ -457,12 +425,9 @@ private:
     {
         if (memory_ != nullptr)
         {
-            if (content_->is_constructed_type())
+            for (; size_ > 0; --size_)
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
-                {
-                    content_->destroy_instance(memory_ + i * block_size_);
-                }
+                content_->destroy_instance(get_element(size_ - 1));
             }
 
             delete[] memory_;
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..8f88dea 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -115,7 +115,8 @@ public:
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source),
+                static_cast<const PairType&>(content_type()), bounds());
     }
 
     virtual void move_instance(
@@ -127,7 +128,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From 317796b246eeb140448f82814f4612f993e63135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 03/37] fix: move strings instead of copying them over a live
 target

---
 include/xtypes/StringType.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..253646b 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,14 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From 2f331a6d3f044f4828df1105cb90093ffc828a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 04/37] fix: destroy the parts already built when building an
 aggregate fails

Also builds the elements of an array missing in the source of a conversion,
and reads the second part of a pair at the offset of the source pair.
---
 include/xtypes/AggregationType.hpp | 10 +++-
 include/xtypes/ArrayType.hpp       | 74 ++++++++++++++++++++----------
 include/xtypes/PairType.hpp        | 37 +++++++++++++--
 include/xtypes/StructType.hpp      | 71 ++++++++++++++++++----------
 4 files changed, 141 insertions(+), 51 deletions(-)

diff --git a/include/xtypes/AggregationType.hpp b/include/xtypes/AggregationType.hpp
index 06b3f10..b9c29f4 100644
--- a/include/xtypes/AggregationType.hpp
+++ b/include/xtypes/AggregationType.hpp
@@ -103,8 +103,16 @@ protected:
     {
         xtypes_assert(!has_member(member.name()),
             "Type '" << name() << "' already have a member named '" << member.name() << "'.");
-        indexes_.emplace(member.name(), members_.size());
         members_.emplace_back(member);
+        try
+        {
+            indexes_.emplace(member.name(), members_.size() - 1);
+        }
+        catch (...)
+        {
+            members_.pop_back();
+            throw;
+        }
         return members_.back();
     }
 
diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..d3dac01 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -108,10 +108,10 @@ public:
             uint8_t* instance) const override
     {
         size_t block_size = content_type().memory_size();
-        for (uint32_t i = 0; i < dimension_; i++)
-        {
-            content_type().construct_instance(instance + i * block_size);
-        }
+        build_elements(instance, [&](uint32_t i)
+                {
+                    content_type().construct_instance(instance + i * block_size);
+                });
     }
 
     virtual void copy_instance(
@@ -121,10 +121,10 @@ public:
         size_t block_size = content_type().memory_size();
         if (content_type().is_constructed_type())
         {
-            for (uint32_t i = 0; i < dimension_; i++)
-            {
-                content_type().copy_instance(target + i * block_size, source + i * block_size);
-            }
+            build_elements(target, [&](uint32_t i)
+                    {
+                        content_type().copy_instance(target + i * block_size, source + i * block_size);
+                    });
         }
         else //optimization when the type is primitive
         {
@@ -160,20 +160,20 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
-        {
-            for (uint32_t i = 0; i < min_dimension; i++)
-            {
-                content_type().copy_instance_from_type(
-                    target + i * block_size,
-                    source + i * other_block_size,
-                    other_array.content_type());
-            }
-        }
-        else //optimization when the type is primitive with same block_size
-        {
-            std::memcpy(target, source, min_dimension * block_size);
-        }
+        build_elements(target, [&](uint32_t i)
+                {
+                    if (i < min_dimension)
+                    {
+                        content_type().copy_instance_from_type(
+                            target + i * block_size,
+                            source + i * other_block_size,
+                            other_array.content_type());
+                    }
+                    else
+                    {
+                        content_type().construct_instance(target + i * block_size);
+                    }
+                });
     }
 
     virtual void move_instance(
@@ -201,9 +201,9 @@ public:
         if (content_type().is_constructed_type())
         {
             size_t block_size = content_type().memory_size();
-            for (int32_t i = dimension_ - 1; i >= 0; i--)
+            for (uint32_t i = dimension_; i > 0; i--)
             {
-                content_type().destroy_instance(instance + i * block_size);
+                content_type().destroy_instance(instance + (i - 1) * block_size);
             }
         }
     }
@@ -327,6 +327,32 @@ protected:
 private:
 
     uint32_t dimension_;
+
+    /// \brief Builds each element in order. If any of them fails, destroys the ones already built.
+    template<typename Builder>
+    void build_elements(
+            uint8_t* instance,
+            Builder build) const
+    {
+        size_t block_size = content_type().memory_size();
+        uint32_t i = 0;
+        try
+        {
+            for (; i < dimension_; i++)
+            {
+                build(i);
+            }
+        }
+        catch (...)
+        {
+            while (i > 0)
+            {
+                --i;
+                content_type().destroy_instance(instance + i * block_size);
+            }
+            throw;
+        }
+    }
 };
 
 } //namespace xtypes
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..1c6d445 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -91,7 +91,10 @@ public:
             uint8_t* instance) const override
     {
         first_->construct_instance(instance);
-        second_->construct_instance(instance + first_->memory_size());
+        build_second(instance, [&]()
+                {
+                    second_->construct_instance(instance + first_->memory_size());
+                });
     }
 
     void copy_instance(
@@ -99,7 +102,10 @@ public:
             const uint8_t* source) const override
     {
         first_->copy_instance(target, source);
-        second_->copy_instance(target + first_->memory_size(), source + first_->memory_size());
+        build_second(target, [&]()
+                {
+                    second_->copy_instance(target + first_->memory_size(), source + first_->memory_size());
+                });
     }
 
     void copy_instance_from_type(
@@ -126,7 +132,13 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        build_second(target, [&]()
+                {
+                    second_->copy_instance_from_type(
+                        target + first_->memory_size(),
+                        source + pair.first().memory_size(),
+                        pair.second());
+                });
     }
 
     void move_instance(
@@ -232,6 +244,25 @@ protected:
     }
 
     friend class MapInstance;
+
+private:
+
+    /// \brief Builds the second part. If it fails, destroys the first one, which is already built.
+    template<typename Builder>
+    void build_second(
+            uint8_t* instance,
+            Builder build) const
+    {
+        try
+        {
+            build();
+        }
+        catch (...)
+        {
+            first_->destroy_instance(instance);
+            throw;
+        }
+    }
 };
 
 } // namespace xtypes
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..4a28280 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -94,20 +94,20 @@ public:
     virtual void construct_instance(
             uint8_t* instance) const override
     {
-        for (auto&& member: members())
-        {
-            member.type().construct_instance(instance + member.offset());
-        }
+        build_members(instance, [&](const Member& member)
+                {
+                    member.type().construct_instance(instance + member.offset());
+                });
     }
 
     virtual void copy_instance(
             uint8_t* target,
             const uint8_t* source) const override
     {
-        for (auto&& member: members())
-        {
-            member.type().copy_instance(target + member.offset(), source + member.offset());
-        }
+        build_members(target, [&](const Member& member)
+                {
+                    member.type().copy_instance(target + member.offset(), source + member.offset());
+                });
     }
 
     virtual void copy_instance_from_type(
@@ -134,21 +134,21 @@ public:
         const StructType& other_struct = static_cast<const StructType&>(other);
 
         auto other_member = other_struct.members().begin();
-        for (auto&& member: members())
-        {
-            if (other_member != other_struct.members().end())
-            {
-                member.type().copy_instance_from_type(
-                    target + member.offset(),
-                    source + other_member->offset(),
-                    other_member->type());
-            }
-            else
-            {
-                member.type().construct_instance(target + member.offset());
-            }
-            other_member++;
-        }
+        build_members(target, [&](const Member& member)
+                {
+                    if (other_member != other_struct.members().end())
+                    {
+                        member.type().copy_instance_from_type(
+                            target + member.offset(),
+                            source + other_member->offset(),
+                            other_member->type());
+                        other_member++;
+                    }
+                    else
+                    {
+                        member.type().construct_instance(target + member.offset());
+                    }
+                });
     }
 
     virtual void move_instance(
@@ -290,6 +290,31 @@ protected:
 private:
 
     size_t memory_size_;
+
+    /// \brief Builds each member in order. If any of them fails, destroys the ones already built.
+    template<typename Builder>
+    void build_members(
+            uint8_t* instance,
+            Builder build) const
+    {
+        auto member = members().begin();
+        try
+        {
+            for (; member != members().end(); ++member)
+            {
+                build(*member);
+            }
+        }
+        catch (...)
+        {
+            while (member != members().begin())
+            {
+                --member;
+                member->type().destroy_instance(instance + member->offset());
+            }
+            throw;
+        }
+    }
 };
 
 } //namespace xtypes
-- 
2.43.0


From 55b81a57ab910bc527a6a71753981c4ad087121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 05/37] fix: hash sequences by their elements

Unbounded sequences always hashed to 0, and bounded ones read past the last
element, or hashed their internal pointers.
---
 include/xtypes/SequenceType.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3be6830..6917124 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -234,24 +234,14 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        uint8_t* instance = const_cast<uint8_t*>(c_instance);
+        size_t size = get_instance_size(instance);
+        uint64_t h = size;
+        for (size_t i = 0; i < size; ++i)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
-            {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
-            }
+            Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
         }
-        return 0;
+        return h;
     }
 
 protected:
-- 
2.43.0


From fcf7e16310411a8162eba72e36647c8d383dbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 06/37] fix: keep the kind, width and next value of
 enumerations when copied

---
 include/xtypes/EnumerationType.hpp | 13 +++++++++++--
 include/xtypes/PrimitiveType.hpp   | 16 +++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..48dcfb9 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -34,7 +34,8 @@ public:
             T value)
     {
         // New values must be always greater than the previous ones
-        xtypes_assert(value >= next_value_,
+        // (once the maximum value is used, next_value_ starts again from zero)
+        xtypes_assert(value >= next_value_ && (next_value_ != 0 || EnumeratedType<T>::values_.empty()),
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
         EnumeratedType<T>::insert_enumerator(name, value);
         next_value_ = value + 1;
@@ -57,7 +58,7 @@ public:
         else
         {
             auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            return it->second;
         }
     }
 
@@ -71,6 +72,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     T next_value_ = T();
 
 };
diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..64efe6f 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -171,9 +171,23 @@ protected:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
             case TypeKind::UINT_32_TYPE:
-            case TypeKind::ENUMERATION_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
+            case TypeKind::ENUMERATION_TYPE:
+                // For checking the associated type, check for its memory_size
+                if (other.memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                }
+                else if (other.memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                }
+                else
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
             case TypeKind::UINT_64_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint64_t*>(source);
                 break;
-- 
2.43.0


From 6c1133b6f49cc2fa497dc75dde51ac43e2625ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 07/37] fix: keep the discriminator and the live member of
 unions coherent

Unlisted labels select the default member, a union without a selected member
can be copied, a selection or a definition that fails changes nothing, copies
from aliased unions and 8 or 16 bit enumerated discriminators are supported.
---
 include/xtypes/UnionType.hpp | 307 +++++++++++++++++++++++------------
 1 file changed, 199 insertions(+), 108 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..13a740a 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -25,6 +25,7 @@
 
 #include <string>
 #include <map>
+#include <memory>
 #include <vector>
 #include <regex>
 #include <cwchar>
@@ -96,7 +97,10 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(!is_default || default_ == invalid_value_, "Cannot set more than one case member as default.");
         // Check labels
+        std::map<int64_t, std::string> new_labels(labels_);
+        int64_t first_label = default_value_;
         for (T label : labels)
         {
             int64_t l = shrink_label<T>(label, disc()->type().memory_size());
@@ -105,6 +109,19 @@ public:
                 labels_.count(l) == 0,
                 "Label with value '" << label << "' already in use while adding case member '" << member.name()
                                      << "' to UnionType '" << name() << "'.");
+            if (l != default_value_)
+            {
+                new_labels[l] = member.name();
+                if (first_label == default_value_ && l != invalid_value_)
+                {
+                    first_label = l;
+                }
+            }
+        }
+
+        if (is_default && first_label == default_value_)
+        {
+            new_labels[default_value_] = member.name(); // If this default has no other labels, must be added now.
         }
 
         Member& inner = insert_member(member);
@@ -121,28 +138,11 @@ public:
         }
 
         // Add labels
-        int64_t first_label = default_value_;
-        for (T label : labels)
-        {
-            int64_t l = shrink_label<T>(label, disc()->type().memory_size());
-            if (l != default_value_)
-            {
-                labels_[l] = inner.name();
-                if (first_label == default_value_)
-                {
-                    first_label = l;
-                }
-            }
-        }
+        labels_.swap(new_labels);
 
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
             default_ = first_label;
-            if (default_ == default_value_)
-            {
-                labels_[default_] = inner.name(); // If this default has no other labels, must be added now.
-            }
         }
 
         return *this;
@@ -257,16 +257,12 @@ public:
         disc()->type().construct_instance(instance);
 
         // If a default exists, built it too. And set it as active.
-        if (default_ != invalid_value_)
+        // (without default, invalid_value_ could be the label of a case member)
+        if (const Member* selected = find_case_member(default_))
         {
-            const Member& def = member(labels_.at(default_));
-            def.type().construct_instance(instance + def.offset());
-            current_label(instance, default_);
-        }
-        else
-        {
-            current_label(instance, invalid_value_);
+            selected->type().construct_instance(instance + selected->offset());
         }
+        current_label(instance, default_);
     }
 
     virtual void copy_instance(
@@ -274,43 +270,57 @@ public:
             const uint8_t* source) const override
     {
         disc()->type().copy_instance(target, source);
-        int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        if (const Member* member = active_member(source))
+        {
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const AggregationType& struct_type = static_cast<const AggregationType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
+
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+
         const UnionType& other_union = static_cast<const UnionType&>(other);
+        const Member* other_member = other_union.active_member(source);
 
-        Member* disc_ = disc();
-        disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        if (other_member == nullptr)
+        {
+            construct_instance(target);
+            return;
+        }
 
-        int64_t label = current_label(disc_->type(), target);
-        if (0 < labels_.count(label))
+        disc()->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        if (other_union.current_label(other_union.disc()->type(), source) == other_union.default_value_)
+        {
+            // The implicit default label depends on the discriminator.
+            current_label(target, default_value_);
+        }
+
+        if (const Member* member = active_member(target))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().copy_instance_from_type(
                 target + member->offset(),
-                source + member->offset(),
-                member->type());
+                source + other_member->offset(),
+                other_member->type());
         }
     }
 
@@ -319,13 +329,15 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
-        int64_t label = current_label(disc()->type(), target);
-        if (0 < labels_.count(label))
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+
+        disc()->type().move_instance(target, source, false);
+        if (const Member* member = active_member(source))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+            member->type().move_instance(target + member->offset(), source + member->offset(), false);
         }
     }
 
@@ -333,10 +345,8 @@ public:
             uint8_t* instance) const override
     {
         disc()->type().destroy_instance(instance);
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        if (const Member* member = active_member(instance))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().destroy_instance(instance + member->offset());
         }
     }
@@ -349,10 +359,8 @@ public:
 
         if (result)
         {
-            int64_t label = current_label(disc()->type(), instance);
-            if (0 < labels_.count(label))
+            if (const Member* member = active_member(instance))
             {
-                Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
                 // Compare active members
                 result = result
                         && member->type().compare_instance(instance + member->offset(),
@@ -422,9 +430,8 @@ public:
     {
         int64_t disc_value = current_label(disc()->type(), node.instance);
 
-        xtypes_assert(0 < labels_.count(disc_value),
-                "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
+        const Member* member = find_case_member(disc_value);
+        xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
         visitor(node);
         InstanceNode child(
             node,
@@ -451,9 +458,8 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        if (const Member* member = active_member(instance))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
@@ -505,21 +511,65 @@ protected:
          [[maybe_unused]] int64_t label)
     {
         xtypes_assert(label != default_value_, "Label '" << label << "' is reserved.");
-        DynamicType* type = &const_cast<DynamicType&>(disc()->type());
+        [[maybe_unused]] const DynamicType& type = resolved_discriminator();
 
-        if (type->kind() == TypeKind::ALIAS_TYPE)
+        xtypes_assert(
+            is_discriminator_value(label),
+            "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type.name() << "'");
+    }
+
+    /// \brief The discriminator type, once its aliases are resolved.
+    const DynamicType& resolved_discriminator() const
+    {
+        const DynamicType& type = disc()->type();
+        return type.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(type).rget() : type;
+    }
+
+    /// \brief Checks if an enumerated discriminator can have the given value.
+    /// The other discriminators can have any value.
+    bool is_discriminator_value(
+            int64_t label) const
+    {
+        const DynamicType& type = resolved_discriminator();
+
+        if (type.kind() != TypeKind::ENUMERATION_TYPE)
         {
-            AliasType* alias = static_cast<AliasType*>(type);
-            type = &const_cast<DynamicType&>(alias->rget());
+            return true;
         }
 
-        if (type->kind() == TypeKind::ENUMERATION_TYPE)
+        // For checking the associated type, check for its memory_size
+        switch (type.memory_size())
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
-            xtypes_assert(
-                enum_type->is_allowed_value(label),
-                "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
+            case sizeof(uint8_t):
+                return static_cast<const EnumerationType<uint8_t>&>(type).is_allowed_value(
+                    static_cast<uint8_t>(label));
+            case sizeof(uint16_t):
+                return static_cast<const EnumerationType<uint16_t>&>(type).is_allowed_value(
+                    static_cast<uint16_t>(label));
+            default:
+                return static_cast<const EnumerationType<uint32_t>&>(type).is_allowed_value(
+                    static_cast<uint32_t>(label));
+        }
+    }
+
+    /// \brief Retrieves the case member selected by a discriminator value, null if there isn't any.
+    /// Any value without case member selects the default one.
+    const Member* find_case_member(
+            int64_t label) const
+    {
+        auto it = labels_.find(label);
+        if (it == labels_.end() && default_ != invalid_value_)
+        {
+            it = labels_.find(default_);
         }
+        return it != labels_.end() ? &member(it->second) : nullptr;
+    }
+
+    /// \brief Retrieves the case member currently selected, null if there isn't any.
+    const Member* active_member(
+            const uint8_t* instance) const
+    {
+        return find_case_member(current_label(disc()->type(), instance));
     }
 
     /// \brief This method sets changes the discriminator's value given a label_instance and its type.
@@ -728,10 +778,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                // For checking the associated type, check for its memory_size
+                switch (disc_->type().memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                        break;
+                    default:
+                        *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -822,9 +880,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
-                disc_value = shrink_label(value, type.memory_size());
+                // For checking the associated type, check for its memory_size
+                switch (type.memory_size())
+                {
+                    case sizeof(uint8_t):
+                        disc_value = *reinterpret_cast<const uint8_t*>(instance);
+                        break;
+                    case sizeof(uint16_t):
+                        disc_value = *reinterpret_cast<const uint16_t*>(instance);
+                        break;
+                    default:
+                        disc_value = *reinterpret_cast<const uint32_t*>(instance);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -854,24 +921,30 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
-        if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+        size_t bits = disc()->type().memory_size() * 8;
+        bool fits = bits >= 64 || (value >= -(int64_t(1) << (bits - 1)) && value < (int64_t(1) << bits));
+        int64_t label = shrink_label(value, disc()->type().memory_size());
+        const Member* selected = find_case_member(label);
+
+        if (!fits || selected == nullptr || (labels_.count(label) == 0 && !is_discriminator_value(label)))
         {
             return false;
         }
 
-        // Retrieve current label.
-        int64_t current_value = current_label(disc()->type(), instance);
+        const Member* active = active_member(instance);
 
-        if (0 < labels_.count(current_value) &&
-                0 != labels_.at(current_value).compare(labels_.at(
-                    value)))
+        if (active != nullptr && active != selected)
         {
             xtypes_assert(false, "Cannot switch member using direct disciminator value.");
             return false;
         }
 
-        current_label(instance, value);
+        if (active == nullptr)
+        {
+            selected->type().construct_instance(instance + selected->offset());
+        }
+
+        current_label(instance, label);
         return true;
     }
 
@@ -880,6 +953,12 @@ protected:
             uint8_t* instance,
             const std::string& case_member_name)
     {
+        const Member* active = active_member(instance);
+        if (active != nullptr && active->name() == case_member_name)
+        {
+            return true; // Already selected, the label is kept.
+        }
+
         for (const auto& pair : labels_)
         {
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
@@ -911,19 +990,16 @@ protected:
     Member& get_current_selection(
             uint8_t* instance)
     {
-        int64_t label = current_label(disc()->type(), instance);
-        xtypes_assert(0 < labels_.count(label), "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        return *member;
+        const uint8_t* const_instance = instance;
+        return const_cast<Member&>(static_cast<const UnionType*>(this)->get_current_selection(const_instance));
     }
 
     /// \brief This method allows to retrieve the current selected case member (const).
     const Member& get_current_selection(
             const uint8_t* instance) const
     {
-        int64_t label = current_label(disc()->type(), instance);
-        xtypes_assert(0 < labels_.count(label), "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+        const Member* member = active_member(instance);
+        xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
         return *member;
     }
 
@@ -933,18 +1009,24 @@ protected:
             uint8_t* instance,
             Member* member)
     {
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        const Member* active = active_member(instance);
+        if (active == member)
         {
-            Member* active_member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            if (active_member == member)
-            {
-                return;
-            }
-            active_member->type().destroy_instance(instance + active_member->offset());
+            return;
+        }
+
+        if (active == nullptr)
+        {
+            member->type().construct_instance(instance + member->offset());
+            return;
         }
 
-        member->type().construct_instance(instance + member->offset());
+        // The previous member is kept until the new one is successfully built.
+        std::unique_ptr<uint8_t[]> built(new uint8_t[member->type().memory_size()]());
+        member->type().construct_instance(built.get());
+        active->type().destroy_instance(instance + active->offset());
+        member->type().move_instance(instance + member->offset(), built.get(), false);
+        member->type().destroy_instance(built.get());
     }
 
     /// \brief This method converts labels represented as strings to the internal int64_t representation.
@@ -1111,9 +1193,18 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& type = resolved_discriminator();
+                                switch (type.memory_size())
+                                {
+                                    case sizeof(uint8_t):
+                                        value = static_cast<const EnumerationType<uint8_t>&>(type).value(label);
+                                        break;
+                                    case sizeof(uint16_t):
+                                        value = static_cast<const EnumerationType<uint16_t>&>(type).value(label);
+                                        break;
+                                    default:
+                                        value = static_cast<const EnumerationType<uint32_t>&>(type).value(label);
+                                }
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From e8c7588d66292e9cc02195f90cf8e47121ca2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 08/37] fix: give every DynamicData its own instance and type

Data created from a reference shared its memory; moved or partially created
data leaked; assigning a part of itself read freed memory; assignments, pushes
and keys of another type were taken as raw memory; reading a union changed its
discriminator; inserting a pair dropped its value; iterator assignments kept
the old type; types owned by a module could change under existing data.
---
 include/xtypes/DynamicData.hpp | 126 ++++++++++++++++++++++-----------
 include/xtypes/MapInstance.hpp |  21 ++++--
 include/xtypes/MapType.hpp     |   6 +-
 3 files changed, 105 insertions(+), 48 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..1184338 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -26,6 +26,7 @@
 #include <xtypes/AliasType.hpp>
 #include <xtypes/MapType.hpp>
 
+#include <memory>
 #include <ostream>
 
 namespace eprosima {
@@ -68,14 +69,6 @@ public:
 
     ReadableDynamicDataRef(const ReadableDynamicDataRef& other) = default;
 
-    ReadableDynamicDataRef(ReadableDynamicDataRef&& other)
-        : type_(std::move(other.type_))
-        , instance_(other.instance_)
-        , initialize_(other.initialize_)
-    {
-        other.initialize_ = false;
-    }
-
     virtual ~ReadableDynamicDataRef() = default;
 
     /// \brief Deep equality operator. All DynamicData tree will be evaluated for equality.
@@ -251,6 +244,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -324,6 +318,11 @@ public:
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
@@ -439,6 +438,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
@@ -685,7 +685,10 @@ protected:
                 xtypes_assert(member_name == union_type.get_current_selection(instance_).name(),
                         "Cannot retrieve a non-selected case member.");
             }
-            union_type.select_case(instance_, member_name);
+            else
+            {
+                union_type.select_case(instance_, member_name);
+            }
         }
 
         const Member& member = aggregation.member(member_name);
@@ -809,7 +812,6 @@ class WritableDynamicDataRef : public ReadableDynamicDataRef
 public:
 
     WritableDynamicDataRef(const WritableDynamicDataRef&) = default;
-    WritableDynamicDataRef(WritableDynamicDataRef&&) = default;
 
     using ReadableDynamicDataRef::operator [];
     using ReadableDynamicDataRef::value;
@@ -819,8 +821,10 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
+                                                      << type_->name() << "'.");
+        assign_instance(p_instance(other), other.type());
         return *this;
     }
 
@@ -942,6 +946,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
@@ -976,7 +981,14 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        if (map.has_key(instance_, p_instance(data)))
+        {
+            return false;
+        }
+
+        const PairType& pair = static_cast<const PairType&>(data.type());
+        return map.insert_instance(instance_, p_instance(data),
+                       p_instance(data) + pair.first().memory_size()) != nullptr;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
@@ -1020,8 +1032,7 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
+        assign_instance(reinterpret_cast<const uint8_t*>(&t), *type_);
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1059,6 +1070,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name()
+                                  << "' but '" << data.type().name() << "' received while pushing value.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
@@ -1304,10 +1318,23 @@ protected:
     {
     }
 
-    WritableDynamicDataRef(
-            ReadableDynamicDataRef&& other)
-        : ReadableDynamicDataRef(std::move(other))
+    /// \brief Replaces the managed instance by a copy of another one, which can be a part of it.
+    /// If the copy fails, the managed instance is kept.
+    void assign_instance(
+            const uint8_t* source,
+            const DynamicType& source_type)
     {
+        if (!type_->is_constructed_type())
+        {
+            type_->copy_instance_from_type(instance_, source, source_type);
+            return;
+        }
+
+        std::unique_ptr<uint8_t[]> copy(new uint8_t[type_->memory_size()]());
+        type_->copy_instance_from_type(copy.get(), source, source_type);
+        type_->destroy_instance(instance_);
+        type_->move_instance(instance_, copy.get(), false);
+        type_->destroy_instance(copy.get());
     }
 
 };
@@ -1322,24 +1349,30 @@ public:
     /// \param[in] type DynamicType from which the DynamicData is created.
     DynamicData(
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(*DynamicType::Ptr(type), nullptr) // The type is copied: later changes do not apply.
     {
-        memset(instance_, 0, type.memory_size());
-        type_->construct_instance(instance_);
-        initialize_ = true;
+        create_instance([&](uint8_t* instance)
+                {
+                    type_->construct_instance(instance);
+                });
     }
 
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), nullptr)
     {
+        create_instance([&](uint8_t* instance)
+                {
+                    type_->copy_instance(instance, p_instance(other));
+                });
     }
 
-    /// \brief Move constructor from a WritableDynamicDataRef
+    /// \brief Constructor from a WritableDynamicDataRef.
+    /// As the reference doesn't own the data, the data is copied.
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
@@ -1350,34 +1383,34 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(*DynamicType::Ptr(type), nullptr)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
-        memset(instance_, 0, type.memory_size());
-        type_->copy_instance_from_type(instance_, p_instance(other), other.type());
-        initialize_ = true;
+        create_instance([&](uint8_t* instance)
+                {
+                    type_->copy_instance_from_type(instance, p_instance(other), other.type());
+                });
     }
 
     /// \brief Copy constructor
     DynamicData(
             const DynamicData& other)
-        : WritableDynamicDataRef(*other.type_, new uint8_t[other.type_->memory_size()])
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
-        memset(instance_, 0, other.type().memory_size());
-        type_->copy_instance(instance_, p_instance(other));
-        initialize_ = true;
     }
 
     /// \brief Move constructor
+    /// The other DynamicData remains valid, but its value is unspecified.
     DynamicData(
             DynamicData&& other)
-        : WritableDynamicDataRef(*other.type_, new uint8_t[other.type_->memory_size()])
+        : WritableDynamicDataRef(*other.type_, nullptr)
     {
-        memset(instance_, 0, other.type().memory_size());
-        type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
+        create_instance([&](uint8_t* instance)
+                {
+                    type_->move_instance(instance, p_instance(other), false);
+                });
     }
 
     /// \brief Assignment operator
@@ -1387,8 +1420,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other), other.type());
         return *this;
     }
 
@@ -1399,8 +1431,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other), other.type());
         return *this;
     }
 
@@ -1603,6 +1634,19 @@ public:
         return WritableDynamicDataRef(*this);
     }
 
+private:
+
+    /// \brief Reserves the required memory, and uses builder to create the instance on it.
+    template<typename Builder>
+    void create_instance(
+            Builder builder)
+    {
+        std::unique_ptr<uint8_t[]> instance(new uint8_t[type_->memory_size()]());
+        builder(instance.get());
+        instance_ = instance.release();
+        initialize_ = true;
+    }
+
 };
 
 /// \brief Ostream operator overload.
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index f95bd12..c7f436c 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -129,10 +129,12 @@ public:
     /// \brief Inserts a key instance into the map, allocating the needed space.
     /// A reallocation can be done in order to allocate this new value.
     /// A reorder can be done in order to keep the keys in order.
-    /// \param[in] instance Instance of the pair to insert into the map.
+    /// \param[in] instance Instance of the key to insert into the map.
+    /// \param[in] value Instance of the value associated to the key, null to use the default value.
     /// \returns Returns the location of the new instance added.
     uint8_t* insert(
             const uint8_t* instance,
+            const uint8_t* value,
             uint32_t bounds)
     {
         size_t index = find_index(instance);
@@ -142,7 +144,7 @@ public:
         if (size_ < capacity_)
         {
             std::unique_ptr<uint8_t[]> entry(allocate(1));
-            construct_entry(entry.get(), instance);
+            construct_entry(entry.get(), instance, value);
             place_entry(entry.get(), index);
         }
         else
@@ -153,7 +155,7 @@ public:
                 new_capacity = std::min(new_capacity, size_t(bounds));
             }
             std::unique_ptr<uint8_t[]> new_memory(allocate(new_capacity));
-            construct_entry(new_memory.get() + index * block_size_, instance);
+            construct_entry(new_memory.get() + index * block_size_, instance, value);
             move_content(new_memory.get(), memory_, index);
             move_content(new_memory.get() + (index + 1) * block_size_, memory_ + index * block_size_, size_ - index);
             delete[] memory_;
@@ -241,12 +243,21 @@ private:
 
     void construct_entry(
             uint8_t* entry,
-            const uint8_t* key) const
+            const uint8_t* key,
+            const uint8_t* value) const
     {
+        uint8_t* entry_value = entry + content_->first().memory_size();
         content_->first().copy_instance(entry, key);
         try
         {
-            content_->second().construct_instance(entry + content_->first().memory_size());
+            if (value != nullptr)
+            {
+                content_->second().copy_instance(entry_value, value);
+            }
+            else
+            {
+                content_->second().construct_instance(entry_value);
+            }
         }
         catch (...)
         {
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 8f88dea..9915240 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -221,15 +221,17 @@ public:
     /// \brief Push a value to a map instance.
     /// \param[in, out] instance Memory instance representing a MapInstance.
     /// \param[in] new key instance to add into the map.
+    /// \param[in] value instance associated to the key, null to use the default value.
     /// \returns a instance location representing the new value added
     /// or nullptr if the map reach the limit.
     uint8_t* insert_instance(
             uint8_t* instance,
-            const uint8_t* key_instance) const
+            const uint8_t* key_instance,
+            const uint8_t* value_instance = nullptr) const
     {
         if (get_instance_size(instance) < bounds() || bounds() == 0)
         {
-            return reinterpret_cast<MapInstance*>(instance)->insert(key_instance, bounds());
+            return reinterpret_cast<MapInstance*>(instance)->insert(key_instance, value_instance, bounds());
         }
         return nullptr;
     }
-- 
2.43.0


From 8b4bbf8ea03d0be4a87c915e65107837c39f7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 09/37] fix: convert incomplete, long and wide texts exactly

A text cut in the middle of a character never ended its conversion, or got
characters of a previous one; wchar_t data could not be printed, and wide
characters out of the basic plane were replaced by others when printed;
printing without memory returned an incomplete text.
---
 include/xtypes/DynamicDataImpl.hpp  | 15 +++++++++---
 include/xtypes/StringConversion.hpp | 38 +++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..f39fc38 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -124,6 +124,7 @@ namespace xtypes {
 inline std::string ReadableDynamicDataRef::to_string() const
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // Don't return an incomplete text if there isn't enough memory.
     for_each([&](const DynamicData::ReadableNode& node)
     {
         const std::string& type_name = node.data().type().name();
@@ -144,8 +145,15 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::CHAR_8_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
-            case TypeKind::CHAR_16_TYPE:
             case TypeKind::WIDE_CHAR_TYPE:
+                {
+                    ss << "<" << type_name << ">  ";
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(
+                        to_u16string(std::wstring(1, node.data().value<wchar_t>())));
+                    ss << std::string(aux.begin(), aux.end());
+                    break;
+                }
+            case TypeKind::CHAR_16_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
@@ -191,9 +199,8 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::WSTRING_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    auto aux = node.data().value<std::wstring>();
-                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(std::u16string(aux.begin(), aux.end()));
-                    ss << std::string(aux2.begin(), aux2.end());
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(to_u16string(node.data().value<std::wstring>()));
+                    ss << std::string(aux.begin(), aux.end());
                     break;
                 }
             case TypeKind::STRING16_TYPE:
diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..f8e3a1f 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -18,7 +18,11 @@
 #ifndef EPROSIMA_STRING_CONVERSION_HPP_
 #define EPROSIMA_STRING_CONVERSION_HPP_
 
+#include <cstdint>
 #include <locale>
+#include <stdexcept>
+#include <string>
+#include <string_view>
 #include <version>
 
 #ifdef __cpp_char8_t
@@ -105,10 +109,11 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
     // iterate if buffer gets filled
     while (processing)
     {
+        const in* from = from_next;
         codecvt_base::result res = choose::translate(
              conv_facet,
              mb,
-             from_next,
+             from,
              from_end,
              from_next,
              buffer,
@@ -129,8 +134,12 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
+                if (from_next == from && to_next == buffer)
+                {
+                    throw std::range_error("encountered an incomplete character at the end");
+                }
                 // insert current buffer content
-                output.append(buffer, buffer_size);
+                output.append(buffer, to_next - buffer);
                 break;
 
             case codecvt_base::error:
@@ -151,6 +160,31 @@ std::basic_string<out> code_conversion_tool(const std::basic_string<in>& input)
     return code_conversion_tool<out>(std::basic_string_view<in>{input});
 }
 
+/// \brief Represents a wide string as UTF-16.
+inline std::u16string to_u16string(
+        const std::wstring& input)
+{
+    std::u16string output;
+    for (wchar_t c : input)
+    {
+        const uint32_t code = static_cast<uint32_t>(c);
+        if (code < 0x10000)
+        {
+            output.push_back(static_cast<char16_t>(code));
+        }
+        else if (code < 0x110000)
+        {
+            output.push_back(static_cast<char16_t>(0xD800 + ((code - 0x10000) >> 10)));
+            output.push_back(static_cast<char16_t>(0xDC00 + ((code - 0x10000) & 0x3FF)));
+        }
+        else
+        {
+            throw std::range_error("encountered a character that could not be converted");
+        }
+    }
+    return output;
+}
+
 } // eprosima
 
 #endif // EPROSIMA_STRING_CONVERSION_HPP_
-- 
2.43.0


From d9a4a30c7321ef08c56d0f050e7f464951b71dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 10/37] fix: make module lookups exact and registrations all or
 nothing

Looking up a missing submodule inserted a null one, qualified names found
symbols of outer modules, a recursive search lost what it found, and refused
or failed registrations renamed the type or left half of a constant.
---
 include/xtypes/idl/Module.hpp | 271 ++++++++++++++--------------------
 1 file changed, 109 insertions(+), 162 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..2ecb471 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -22,6 +22,7 @@
 
 #include <xtypes/idl/Type.hpp>
 
+#include <algorithm>
 #include <string>
 #include <memory>
 
@@ -68,7 +69,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,7 +118,7 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
@@ -224,13 +226,7 @@ public:
             return false; // Cannot add a symbol with scoped name.
         }
 
-        std::string name = struct_type.name();
-        std::string name_space = scope();
-        struct_type.name(name_space + (name_space.empty() ? "" : "::") + name);
-        auto result = structs_.emplace(
-            name,
-            Type(*this, struct_type));
-        return result.second;
+        return add_type(structs_, struct_type, false);
     }
 
     bool structure(
@@ -242,22 +238,7 @@ public:
             return false; // Cannot add a symbol with scoped name.
         }
 
-        if (replace)
-        {
-            auto it = structs_.find(struct_type.name());
-            if (it != structs_.end())
-            {
-                structs_.erase(it);
-            }
-        }
-
-        std::string name = struct_type.name();
-        std::string name_space = scope();
-        struct_type.name(name_space + (name_space.empty() ? "" : "::") + name);
-        auto result = structs_.emplace(
-            name,
-            Type(*this, std::move(struct_type)));
-        return result.second;
+        return add_type(structs_, struct_type, replace);
     }
 
     bool has_union(
@@ -308,13 +289,7 @@ public:
             return false; // Cannot add a symbol with scoped name.
         }
 
-        std::string name = union_type.name();
-        std::string name_space = scope();
-        union_type.name(name_space + (name_space.empty() ? "" : "::") + name);
-        auto result = unions_.emplace(
-            name,
-            Type(*this, union_type));
-        return result.second;
+        return add_type(unions_, union_type, false);
     }
 
     bool union_switch(
@@ -326,22 +301,7 @@ public:
             return false; // Cannot add a symbol with scoped name.
         }
 
-        if (replace)
-        {
-            auto it = unions_.find(union_type.name());
-            if (it != unions_.end())
-            {
-                unions_.erase(it);
-            }
-        }
-
-        std::string name = union_type.name();
-        std::string name_space = scope();
-        union_type.name(name_space + (name_space.empty() ? "" : "::") + name);
-        auto result = unions_.emplace(
-            name,
-            Type(*this, std::move(union_type)));
-        return result.second;
+        return add_type(unions_, union_type, replace);
     }
 
     // TODO has, get and set of:
@@ -444,29 +404,33 @@ public:
             return false; // Cannot add a symbol with scoped name.
         }
 
-        if (replace)
+        if (!replace && constants_.count(name) > 0)
         {
-            auto it = constants_.find(name);
-            if (it != constants_.end())
-            {
-                constants_.erase(it);
-                constants_types_.erase(constants_types_.find(name));
-            }
+            return false;
         }
 
-        auto inserted = constants_types_.emplace(name, Type(*this, value.type()));
-        if (inserted.second)
+        std::map<std::string, Type> added_type;
+        auto type_it = added_type.emplace(name, Type(*this, value.type())).first;
+
+        std::map<std::string, DynamicData> added;
+        auto it = added.emplace(name, DynamicData(*type_it->second.get())).first;
+        it->second = value;
+
+        std::string enumerator = name;
+        from_enum_.reserve(from_enum_.size() + 1);
+
+        // Nothing can fail from here.
+        constants_.erase(name);
+        constants_types_.erase(name);
+        from_enum_.erase(std::remove(from_enum_.begin(), from_enum_.end(), name), from_enum_.end());
+
+        constants_types_.insert(added_type.extract(type_it));
+        constants_.insert(added.extract(it));
+        if (from_enumeration)
         {
-            DynamicData temp(*inserted.first->second.get());
-            temp = value;
-            auto result = constants_.emplace(name, temp);
-            if (result.second && from_enumeration)
-            {
-                from_enum_.push_back(name);
-            }
-            return result.second;
+            from_enum_.push_back(std::move(enumerator));
         }
-        return false;
+        return true;
     }
 
     EnumerationType<uint32_t>& enum_32(
@@ -485,7 +449,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
@@ -510,20 +480,7 @@ public:
             return false; // Cannot add a symbol with scoped name.
         }
 
-        if (replace)
-        {
-            auto it = enumerations_32_.find(enumeration.name());
-            if (it != enumerations_32_.end())
-            {
-                enumerations_32_.erase(it);
-            }
-        }
-
-        std::string name = enumeration.name();
-        std::string name_space = scope();
-        enumeration.name(name_space + (name_space.empty() ? "" : "::") + name);
-        auto result = enumerations_32_.emplace(name, Type(*this, std::move(enumeration)));
-        return result.second;
+        return add_type(enumerations_32_, enumeration, replace);
     }
 
     const AliasType& alias(
@@ -577,19 +534,13 @@ public:
     bool add_alias(
             AliasType& alias)
     {
-        std::string name = alias.name();
-        std::string name_space = scope();
-        alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-        return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
+        return add_type(aliases_, alias, false);
     }
 
     bool add_alias(
             AliasType&& alias)
     {
-        std::string name = alias.name();
-        std::string name_space = scope();
-        alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-        return aliases_.emplace(name, Type(*this, std::move(alias))).second;
+        return add_type(aliases_, alias, false);
     }
 
     // Generic type retrieval.
@@ -604,6 +555,10 @@ public:
             for (auto [key, mod]: inner_)
             {
                 ret_type = mod.get()->type(name, recursive);
+                if (ret_type.get() != nullptr)
+                {
+                    break;
+                }
             }
         }
 
@@ -638,7 +593,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
@@ -678,97 +633,89 @@ protected:
     {
     }
 
-    // Auxiliar method to resolve scoped. It will return the Module up to the last "::" by calling
-    // recursively resolving each scoped name, looking for the scope path, and the symbol name without the scope.
+    // Auxiliar method to resolve scoped. It will return the Module up to the last "::",
+    // looking for the scope path, and the symbol name without the scope.
+    // Names without scope, and the first module of a relative path, are looked up from this module to the outermost.
     // If the path cannot be resolved, it will return nullptr as path, and the full given symbol name.
     PairModuleSymbol resolve_scope(
             const std::string& symbol_name) const
     {
-        return resolve_scope(symbol_name, symbol_name, true);
-    }
+        const size_t separator = symbol_name.find("::");
 
-    PairModuleSymbol resolve_scope(
-            const std::string& symbol_name,
-            const std::string& original_name,
-            bool first = false) const
-    {
-        if (!first && symbol_name == original_name)
+        if (separator == 0) // Looking for root
         {
-            // Loop trying to resolve the name. Abort failing.
-            PairModuleSymbol pair;
-            pair.first = nullptr;
-            pair.second = original_name;
-            return pair;
+            const Module* root = this;
+            while (root->outer_ != nullptr)
+            {
+                root = root->outer_;
+            }
+            return root->resolve_path(symbol_name.substr(2), symbol_name);
         }
 
-        std::string name = symbol_name;
-        // Solve scope
-        if (symbol_name.find("::") != std::string::npos) // It is an scoped name
+        const std::string first_name = symbol_name.substr(0, separator);
+        const Module* module = this;
+        while (module->outer_ != nullptr
+                && !(separator == std::string::npos
+                ? module->has_symbol(first_name, false)
+                : module->has_submodule(first_name)))
         {
-            if (symbol_name.find("::") == 0) // Looking for root
-            {
-                if (outer_ == nullptr) // We are the root, now go down.
-                {
-                    return resolve_scope(symbol_name.substr(2), original_name);
-                }
-                else // We are not the root, go up, with the original name.
-                {
-                    return outer_->resolve_scope(original_name, original_name, true);
-                }
-            }
-            else // not looking for root
+            module = module->outer_;
+        }
+        return module->resolve_path(symbol_name, symbol_name);
+    }
+
+    // Resolves a scoped name going only down from this module.
+    PairModuleSymbol resolve_path(
+            const std::string& path,
+            const std::string& original_name) const
+    {
+        const Module* module = this;
+        size_t begin = 0;
+
+        for (size_t end = path.find("::"); end != std::string::npos; end = path.find("::", begin))
+        {
+            auto it = module->inner_.find(path.substr(begin, end - begin));
+            if (it == module->inner_.end())
             {
-                std::string inner_scope = symbol_name.substr(0, symbol_name.find("::"));
-                // Maybe the current scope its me?
-                if (inner_scope == name_)
-                {
-                    std::string innest_scope = inner_scope.substr(0, inner_scope.find("::"));
-                    if (inner_.count(innest_scope) > 0)
-                    {
-                        std::string inner_name = symbol_name.substr(symbol_name.find("::") + 2);
-                        const auto& it = inner_.find(innest_scope);
-                        PairModuleSymbol result = it->second->resolve_scope(inner_name, original_name);
-                        if (result.first != nullptr)
-                        {
-                            return result;
-                        }
-                    }
-                }
-                // Do we have a inner scope that matches?
-                if (inner_.count(inner_scope) > 0)
-                {
-                    std::string inner_name = symbol_name.substr(symbol_name.find("::") + 2);
-                    const auto& it = inner_.find(inner_scope);
-                    return it->second->resolve_scope(inner_name, original_name);
-                }
-                // Try going back
-                if (outer_ != nullptr && first)
-                {
-                    return outer_->resolve_scope(original_name, original_name, true);
-                }
-                // Unknown scope
-                PairModuleSymbol pair;
-                pair.first = nullptr;
-                pair.second = original_name;
-                return pair;
+                return PairModuleSymbol(nullptr, original_name);
             }
+            module = it->second.get();
+            begin = end + 2;
         }
 
-        if (has_symbol(name, false))
+        std::string name = path.substr(begin);
+        if (!module->has_symbol(name, false))
         {
-            return std::make_pair<const Module*, std::string>(this, std::move(name));
+            return PairModuleSymbol(nullptr, original_name);
         }
+        return PairModuleSymbol(module, std::move(name));
+    }
 
-        if (outer_ != nullptr)
+    // Adds a copy of type with its scoped name to the given types, and also renames type.
+    // If it isn't added, neither the module nor type change.
+    template<typename DynamicTypeImpl>
+    bool add_type(
+            std::map<std::string, Type>& types,
+            DynamicTypeImpl& type,
+            bool replace)
+    {
+        if (!replace && types.count(type.name()) > 0)
         {
-            return outer_->resolve_scope(symbol_name, original_name, true);
+            return false;
         }
 
-        // Failed, not found
-        PairModuleSymbol pair;
-        pair.first = nullptr;
-        pair.second = original_name;
-        return pair;
+        std::string name_space = scope();
+        std::string scoped_name = name_space + (name_space.empty() ? "" : "::") + type.name();
+
+        std::map<std::string, Type> added;
+        auto it = added.emplace(type.name(), Type(*this, type)).first;
+        it->second.get()->name(scoped_name);
+        type.name(scoped_name);
+
+        // Nothing can fail from here.
+        types.erase(it->first);
+        types.insert(added.extract(it));
+        return true;
     }
 
 };
-- 
2.43.0


From 2b1344b52e3544780855abb088595ac689d20fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 11/37] fix: copy and compare every label of boolean unions

---
 include/xtypes/UnionType.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 13a740a..03dd5ba 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -269,7 +269,8 @@ public:
             uint8_t* target,
             const uint8_t* source) const override
     {
-        disc()->type().copy_instance(target, source);
+        // By value: the labels of a boolean discriminator aren't only those of a bool.
+        current_label(target, current_label(disc()->type(), source));
         if (const Member* member = active_member(source))
         {
             member->type().copy_instance(target + member->offset(), source + member->offset());
@@ -334,7 +335,7 @@ public:
             destroy_instance(target);
         }
 
-        disc()->type().move_instance(target, source, false);
+        current_label(target, current_label(disc()->type(), source));
         if (const Member* member = active_member(source))
         {
             member->type().move_instance(target + member->offset(), source + member->offset(), false);
@@ -355,7 +356,7 @@ public:
             const uint8_t* instance,
             const uint8_t* other_instance) const override
     {
-        bool result = disc()->type().compare_instance(instance, other_instance);
+        bool result = current_label(disc()->type(), instance) == current_label(disc()->type(), other_instance);
 
         if (result)
         {
-- 
2.43.0


From 763520b58b159001d32a3f8b9459d4a0e4243522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 12/37] fix: refuse aliases with scoped names

add_alias registered an alias given as A::B under that literal key, which no
lookup can reach, and renamed nothing else. Every other registration refuses a
scoped name.
---
 include/xtypes/idl/Module.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 2ecb471..095b2ba 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -534,12 +534,22 @@ public:
     bool add_alias(
             AliasType& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot add a symbol with scoped name.
+        }
+
         return add_type(aliases_, alias, false);
     }
 
     bool add_alias(
             AliasType&& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot add a symbol with scoped name.
+        }
+
         return add_type(aliases_, alias, false);
     }
 
-- 
2.43.0


From ba4cec0d49b6c9859c683bb389a0d6f44d833777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 13/37] fix: keep apart map keys that share their hash

Map entries were told apart only by the 64 bit hash of their keys, so
inserting a key whose hash was already present gave access to the entry of
another key.
---
 include/xtypes/MapInstance.hpp | 59 +++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index c7f436c..5f972bc 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -111,7 +111,8 @@ public:
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
             {
-                comp &= content_->compare_instance(get_element(i), other.get_element(i));
+                const uint8_t* entry = other[get_element(i)];
+                comp &= entry != nullptr && content_->compare_instance(get_element(i), entry);
             }
             return comp;
         }
@@ -138,7 +139,7 @@ public:
             uint32_t bounds)
     {
         size_t index = find_index(instance);
-        xtypes_assert(index == size_ || hash(instance) != hash(get_element(index)), "Key already exists.");
+        xtypes_assert(!is_key_at(instance, index), "Key already exists.");
 
         // The new entry is built before touching the others, as the key can be part of one of them.
         if (size_ < capacity_)
@@ -209,10 +210,16 @@ public:
     {
         if (size_ > 0)
         {
-            uint64_t h = content_->hash(memory_);
-            for (uint32_t i = 1; i < size_; ++i)
+            uint64_t h = 0;
+            for (uint32_t i = 0; i < size_; ++i)
             {
-                Instanceable::hash_combine(h, content_->hash(get_element(i)));
+                // The entries whose keys share their hash can be in any order.
+                uint64_t entry_hash = content_->hash(get_element(i));
+                while (i + 1 < size_ && hash(get_element(i)) == hash(get_element(i + 1)))
+                {
+                    entry_hash += content_->hash(get_element(++i));
+                }
+                Instanceable::hash_combine(h, entry_hash);
             }
             return h;
         }
@@ -320,7 +327,7 @@ private:
         {
             content_->copy_instance_from_type(entry.get(), other.get_element(i), *other.content_);
             size_t index = find_index(entry.get());
-            if (index == size_ || hash(entry.get()) != hash(get_element(index)))
+            if (!is_key_at(entry.get(), index))
             {
                 place_entry(entry.get(), index);
             }
@@ -370,7 +377,7 @@ private:
         {
             if (instance_hash == current_hash)
             {
-                return current;
+                return find_key(instance, current, exact);
             }
             else if (instance_hash > current_hash)
             {
@@ -396,7 +403,7 @@ private:
 
         if (instance_hash == current_hash)
         {
-            return current;
+            return find_key(instance, current, exact);
         }
         else if (instance_hash < current_hash)
         {
@@ -408,6 +415,42 @@ private:
         }
     }
 
+    // Different keys can share their hash: looks for the key among the entries with the hash of current.
+    uint8_t* find_key(
+            const uint8_t* instance,
+            const uint8_t* current,
+            bool exact) const
+    {
+        const uint64_t instance_hash = hash(current);
+        size_t index = (current - memory_) / block_size_;
+        while (index > 0 && hash(get_element(index - 1)) == instance_hash)
+        {
+            --index;
+        }
+        while (index < size_ && hash(get_element(index)) == instance_hash)
+        {
+            if (is_key_at(instance, index))
+            {
+                return get_element(index);
+            }
+            ++index;
+        }
+        return exact ? nullptr : get_element(index);
+    }
+
+    bool is_key_at(
+            const uint8_t* instance,
+            size_t index) const
+    {
+        if (index == size_ || hash(instance) != hash(get_element(index)))
+        {
+            return false;
+        }
+        // The hash of a primitive type identifies its value.
+        return !content_->first().is_constructed_type()
+               || content_->first().compare_instance(instance, get_element(index));
+    }
+
     uint8_t* get_element(
             size_t index) const
     {
-- 
2.43.0


From 5ac4d3e8266080656d80af1c2fcd82ee629ff513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 14/37] fix: generate each IDL definition after the ones it
 needs

---
 include/xtypes/idl/generator_deptree.hpp | 183 +++++++++++++----------
 1 file changed, 102 insertions(+), 81 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 0e6f84d..5f49035 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -111,6 +111,7 @@ public:
         , node_(node)
         , kind_(std::move(kind))
         , iterated_(false)
+        , visited_(false)
     {}
 
     /// \brief Check if this DependencyNode has been iterated.
@@ -121,6 +122,16 @@ public:
         return iterated_;
     }
 
+    /// \brief Mark this DependencyNode as visited.
+    /// A visited node is already in its way to be generated, together with the nodes to be declared prior to it.
+    /// \returns A boolean value indicating if it had not been visited before.
+    bool visit()
+    {
+        bool first_visit = !visited_;
+        visited_ = true;
+        return first_visit;
+    }
+
     /// \brief Gets the DependencyModule which contains this DependencyNode.
     /// \returns A const pointer to the DependencyModule this object comes from.
     const DependencyModule* from() const
@@ -180,10 +191,15 @@ public:
     }
 
     /// \brief Set a new ancestor for this DependencyNode.
-    /// \pre New ancestor is not added if it already exists.
+    /// \pre New ancestor is not added if it already exists, or if it is this very node.
     /// \param[in] ancestor New ancestor to be set.
     void set_ancestor(DependencyNode& ancestor)
     {
+        if (&ancestor == this)
+        {
+            return;
+        }
+
         for (const auto& ancestor_ : ancestors_)
         {
             if (ancestor_.get() == ancestor)
@@ -348,7 +364,7 @@ public:
             const DependencyNode& other) const
     {
         return (kind_ == other.kind_ &&
-                node_.first == node_.first &&
+                node_.first == other.node_.first &&
                 node_.second.get() == other.node_.second.get() &&
                 node_.second.parent().scope() == node_.second.parent().scope());
     }
@@ -368,6 +384,7 @@ private:
     const ModuleElement& node_;
     ModuleElementKind kind_;
     bool iterated_;
+    bool visited_;
     NodeRefSet ancestors_;
     ModuleRefSet parent_modules_;
     ModuleRefSet child_modules_;
@@ -877,7 +894,26 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master, node.kind());
+            set_dependency(node, master, element_kind(type));
+        }
+    }
+
+    /// \brief Get the kind of Module's content element which holds a DynamicType.
+    /// \param[in] type The DynamicType, which must opt for dependency setting.
+    /// \returns The ModuleElementKind of its DependencyNode.
+    inline ModuleElementKind element_kind(
+            const DynamicType& type) const
+    {
+        switch (type.kind())
+        {
+            case TypeKind::ALIAS_TYPE:
+                return ModuleElementKind::xALIAS;
+            case TypeKind::ENUMERATION_TYPE:
+                return ModuleElementKind::xENUM;
+            case TypeKind::UNION_TYPE:
+                return ModuleElementKind::xUNION;
+            default:
+                return ModuleElementKind::xSTRUCT;
         }
     }
 
@@ -890,7 +926,11 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                set_dynamic_type_dependency(node, *alias, alias->name());
+                alias->for_each([&](const DynamicType::TypeNode& tnode)
+                {
+                    const DynamicType& type = tnode.type();
+                    set_dynamic_type_dependency(node, type, type.name());
+                });
                 break;
             }
 
@@ -999,72 +1039,30 @@ public:
         return ss.str();
     }
 
-    /// \brief Helper method to generate an IDL sentence from a DependencyModule
-    /// reference, given the corresponding DependencyNode whose IDL sentence wants to be
-    /// generated. The method first checks if the node belongs to this DependencyModule.
-    /// \param[in] node DependencyNode whose IDL sentence will be generated.
-    /// \param[in] tabs Padding relative to module's scope.
-    /// \returns An string with the generated IDL sentence, if node belongs to this module.
-    std::string generate_idl_sentence(
-            DependencyNode& node,
-            unsigned int tabs,
-            std::map<std::string, std::string>* module_idl = nullptr) const
-    {
-        if (std::find(node_set_.begin(), node_set_.end(), node) != node_set_.end())
-        {
-            return node.generate_idl_sentence(tabs, module_idl);
-        }
-        else
-        {
-            return std::string();
-        }
-    }
-
-    /// \brief Generate IDL sentence for the DependencyNode contents of this module.
+    /// \brief Generate IDL sentence for one of the DependencyNodes of this module.
+    /// \param[in] node The DependencyNode whose IDL sentence will be generated.
     /// \param[in] tabs Padding relative to module's scope.
-    /// \param[in] is_child If set, generate IDL sentence only for DependencyNode that has as child
-    /// the "is_child" DependencyModule reference.
     /// \returns An string with the generated IDL.
-    std::string generate_idl_module(
+    std::string generate_idl_node(
+            DependencyNode& node,
             unsigned int tabs = 0,
-            std::map<std::string, std::string>* struct_idl = nullptr)
+            std::map<std::string, std::string>* struct_idl = nullptr) const
     {
-        std::stringstream ss;
+        std::stringstream ss_node;
+        ss_node << node.generate_idl_sentence(tabs, struct_idl);
 
-        for (auto& node : node_set_)
+        if (ss_node.rdbuf()->in_avail() &&
+            (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
         {
-            if (node.has_ancestors())
-            {
-                for (const auto& ancestor : node.ancestors())
-                {
-                    std::stringstream ss_ancestor;
-                    ss_ancestor << ancestor.get().generate_idl_sentence(tabs, struct_idl);
-
-                    if (ss_ancestor.rdbuf()->in_avail())
-                    {
-                        ss << ss_ancestor.str() << std::endl;
-                    }
-                }
-            }
-
-            std::stringstream ss_node;
-            ss_node << node.generate_idl_sentence(tabs, struct_idl);
-
-            if (ss_node.rdbuf()->in_avail() &&
-                (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
-            {
-                ss_node << std::endl;
-            }
-
-            ss << ss_node.str();
+            ss_node << std::endl;
+        }
 
-            if (struct_idl != nullptr)
-            {
-                (*struct_idl)[node.type().name()] = ss_node.str();
-            }
+        if (struct_idl != nullptr)
+        {
+            (*struct_idl)[node.type().name()] = ss_node.str();
         }
 
-        return ss.str();
+        return ss_node.str();
     }
 
 private:
@@ -1123,6 +1121,44 @@ public:
         }
     }
 
+    /// \brief Generate IDL sentence for a given DependencyNode, after everything to be declared prior to it:
+    /// the inner modules of its DependencyModule it requires, and its ancestors.
+    /// \param[in] dep_mod The DependencyModule the node belongs to.
+    /// \param[in] node The DependencyNode whose IDL wants to be generated.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \returns A string representing IDL definition for the given node.
+    std::string generate_idl_node(
+            DependencyModule* dep_mod,
+            DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl = nullptr) const
+    {
+        std::stringstream ss;
+
+        if (!node.visit())
+        {
+            return ss.str();
+        }
+
+        for (const auto& parent : node.parent_modules())
+        {
+            DependencyModule* p_parent = parent.lock().get();
+            if (!p_parent->iterated())
+            {
+                ss << generate_idl(p_parent, tabs, module_idl) << std::endl;
+            }
+        }
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            ss << generate_idl_node(dep_mod, ancestor.get(), tabs, module_idl);
+        }
+
+        ss << dep_mod->generate_idl_node(node, tabs, module_idl);
+
+        return ss.str();
+    }
+
     /// \brief Generate IDL sentence for a given DependencyModule.
     /// \param[in] dep_mod the DependencyModule whose IDL wants to be generated.
     /// \param[in] tabs Padding relative to module's scope.
@@ -1137,6 +1173,9 @@ public:
             return std::string();
         }
 
+        // Set it in advance: modules which depend on each other must not be generated endlessly
+        dep_mod->set_iterated(true);
+
         bool root = dep_mod->module().name().empty();
         std::stringstream ss;
 
@@ -1160,12 +1199,7 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
-                    ss << outer->generate_idl_sentence(onode, tabs, module_idl);
-
-                    if (!outer->all_nodes_iterated())
-                    {
-                        ss << std::endl;
-                    }
+                    ss << generate_idl_node(outer, onode, tabs, module_idl);
                 }
             }
         }
@@ -1194,20 +1228,9 @@ public:
 
         for (auto& node : dep_mod->node_set())
         {
-            if (node.has_parent_modules())
-            {
-                for (const auto& parent : node.parent_modules())
-                {
-                    if (!parent.lock().get()->iterated())
-                    {
-                        ss << generate_idl(parent.lock().get(), root ? 0 : tabs + 1, module_idl) << std::endl;
-                    }
-                }
-            }
+            ss << generate_idl_node(dep_mod, node, root ? 0 : tabs + 1, module_idl);
         }
 
-        ss << dep_mod->generate_idl_module(root ? 0 : tabs + 1, module_idl);
-
         // Iterate over inner DependencyModule list
         for (const auto& inner : dep_mod->inner())
         {
@@ -1262,8 +1285,6 @@ public:
             }
         }
 
-        dep_mod->set_iterated(true);
-
         if (module_idl != nullptr)
         {
             auto it = module_idl->find(dep_mod->module().name() + ":DependencyModule");
-- 
2.43.0


From 4e4734c2a05880983b8b70a0299f20722bf522e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 15/37] fix: generate IDL labels by the type of their
 discriminator

---
 include/xtypes/idl/generator.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..2227bdd 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -219,14 +219,12 @@ inline std::string label_value(
         size_t value,
         const DynamicType& type)
 {
-    TypeKind kind = type.kind();
-
-    if (kind == TypeKind::ALIAS_TYPE)
+    if (type.kind() == TypeKind::ALIAS_TYPE)
     {
-        kind = static_cast<const AliasType&>(type).rget().kind();
+        return label_value(value, static_cast<const AliasType&>(type).rget());
     }
 
-    switch (kind)
+    switch (type.kind())
     {
         case TypeKind::BOOLEAN_TYPE:
         {
@@ -249,16 +247,21 @@ inline std::string label_value(
             return ss.str();
         }
         case TypeKind::INT_8_TYPE:
+            return std::to_string(static_cast<int8_t>(value));
         case TypeKind::UINT_8_TYPE:
+            return std::to_string(static_cast<uint8_t>(value));
         case TypeKind::INT_16_TYPE:
+            return std::to_string(static_cast<int16_t>(value));
         case TypeKind::UINT_16_TYPE:
+            return std::to_string(static_cast<uint16_t>(value));
         case TypeKind::INT_32_TYPE:
+            return std::to_string(static_cast<int32_t>(value));
         case TypeKind::UINT_32_TYPE:
+            return std::to_string(static_cast<uint32_t>(value));
         case TypeKind::INT_64_TYPE:
+            return std::to_string(static_cast<int64_t>(value));
         case TypeKind::UINT_64_TYPE:
-        {
-            return std::to_string(value);
-        }
+            return std::to_string(static_cast<uint64_t>(value));
         case TypeKind::ENUMERATION_TYPE:
         {
             return static_cast<const EnumerationType<uint32_t>&>(type).enumerator(static_cast<uint32_t>(value));
-- 
2.43.0


From 9d2d1939f25651b566177dc171dcdeccde1408d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 16/37] fix: generate IDL constants as literals of their type

---
 include/xtypes/idl/generator.hpp | 81 ++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2227bdd..42dfaca 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -28,6 +28,9 @@
 #include <xtypes/idl/generator_deptree.hpp>
 #include <xtypes/idl/Module.hpp>
 
+#include <iomanip>
+#include <limits>
+#include <locale>
 #include <sstream>
 
 #define dependencynode_assert(NODEPTR, KIND) \
@@ -427,47 +430,53 @@ inline std::string enumeration32(
     return ss.str();
 }
 
-inline std::string get_const_value(
-        ReadableDynamicDataRef data)
+/// \brief Represents a UTF-16 text as the characters of an IDL literal.
+inline std::string wide_literal(
+        const std::u16string& text)
+{
+    auto aux = code_conversion_tool<XTYPES_CHAR>(text);
+    return std::string(aux.begin(), aux.end());
+}
+
+/// \brief Represents a floating point value as an IDL literal, with all of its significant digits.
+template<typename T>
+inline std::string float_literal(
+        T value)
 {
     std::stringstream ss;
-    std::string prefix = "";
-    std::string suffix = "";
+    ss.imbue(std::locale::classic());
+    ss << std::showpoint << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
+    return ss.str();
+}
 
-    if (data.type().kind() == TypeKind::STRING_TYPE)
-    {
-        prefix = "\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::WSTRING_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::STRING16_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_8_TYPE)
-    {
-        prefix = "'";
-        suffix = "'";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_16_TYPE)
-    {
-        prefix = "L'";
-        suffix = "'";
-    }
-    else if (data.type().kind() == TypeKind::WIDE_CHAR_TYPE)
+inline std::string get_const_value(
+        ReadableDynamicDataRef data)
+{
+    switch (data.type().kind())
     {
-        prefix = "L'";
-        suffix = "'";
+        case TypeKind::BOOLEAN_TYPE:
+            return data.value<bool>() ? "TRUE" : "FALSE";
+        case TypeKind::CHAR_8_TYPE:
+            return std::string("'") + data.value<char>() + "'";
+        case TypeKind::CHAR_16_TYPE:
+            return "L'" + wide_literal(std::u16string(1, data.value<char16_t>())) + "'";
+        case TypeKind::WIDE_CHAR_TYPE:
+            return "L'" + wide_literal(to_u16string(std::wstring(1, data.value<wchar_t>()))) + "'";
+        case TypeKind::STRING_TYPE:
+            return "\"" + data.value<std::string>() + "\"";
+        case TypeKind::WSTRING_TYPE:
+            return "L\"" + wide_literal(to_u16string(data.value<std::wstring>())) + "\"";
+        case TypeKind::STRING16_TYPE:
+            return "L\"" + wide_literal(data.value<std::u16string>()) + "\"";
+        case TypeKind::FLOAT_32_TYPE:
+            return float_literal(data.value<float>());
+        case TypeKind::FLOAT_64_TYPE:
+            return float_literal(data.value<double>());
+        case TypeKind::FLOAT_128_TYPE:
+            return float_literal(data.value<long double>());
+        default:
+            return data.cast<std::string>();
     }
-
-    ss << prefix << data.cast<std::string>() << suffix;
-
-    return ss.str();
 }
 
 } //namespace generator
-- 
2.43.0


From 4dbbb4dd8ca668af4c4cab81579d5282cef99ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 17/37] fix: maps of empty structures divided by the size of
 their entries

---
 include/xtypes/MapInstance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 5f972bc..6b9b988 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -41,7 +41,7 @@ public:
     MapInstance(
             const PairType& content,
             uint32_t capacity = 0)
-        : block_size_(content.memory_size())
+        : block_size_(std::max<size_t>(content.memory_size(), 1)) // entries of empty structures have a place too
         , capacity_(capacity)
     {
         std::shared_ptr<const DynamicType> tmp;
-- 
2.43.0


From a1bcd9f51c3e173db3c7f921e031e400e1c7aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 18/37] fix: refuse IDL that could not be preprocessed or read
 as a whole

---
 include/xtypes/idl/parser.hpp | 84 +++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 0d0796c..06ab1ca 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -41,6 +41,8 @@
 #endif //_MSC_VER
 
 #include <array>
+#include <cerrno>
+#include <cstdio>
 #include <exception>
 #include <filesystem>
 #include <fstream>
@@ -275,34 +277,50 @@ private:
     template<preprocess_strategy e>
     std::string preprocess_string(const std::string& idl_string) const;
 
+    // A file that is removed with the object
+    struct TemporaryFile
+    {
+        std::string path;
+
+        TemporaryFile() = default;
+        TemporaryFile(const TemporaryFile&) = delete;
+        TemporaryFile& operator = (const TemporaryFile&) = delete;
+
+        ~TemporaryFile()
+        {
+            if (!path.empty())
+            {
+                std::remove(path.c_str());
+            }
+        }
+    };
+
 #ifdef _MSC_VER
-    std::pair<std::ofstream, std::filesystem::path> get_temporary_file() const
+    void create_temporary_file(
+            TemporaryFile& file) const
     {
         // Create temporary filename
         char filename_buffer[L_tmpnam];
         auto res = std::tmpnam(filename_buffer);
         xtypes_assert(res, "Unable to create a temporary file", true);
 
-        std::filesystem::path tmp(filename_buffer);
-        std::ofstream tmp_file(tmp);
-        xtypes_assert(tmp_file, "Unable to create a temporary file", true);
-
-        return std::make_pair(std::move(tmp_file), std::move(tmp));
+        file.path = filename_buffer;
     }
 #else
-    std::pair<std::ofstream, std::filesystem::path> get_temporary_file() const
+    void create_temporary_file(
+            TemporaryFile& file) const
     {
         // Create temporary filename
         static const std::filesystem::path tmpdir = std::filesystem::temp_directory_path();
         std::string tmp = (tmpdir / "xtypes_XXXXXX").string();
         int fd = mkstemp(tmp.data());
-        xtypes_assert(fd != -1, "Unable to create a temporary file", true);
+        if (fd == -1)
+        {
+            throw std::runtime_error("Unable to create a temporary file");
+        }
 
-        std::ofstream tmp_file(tmp, std::ios_base::trunc | std::ios_base::out);
+        file.path.swap(tmp);
         close(fd);
-        xtypes_assert(tmp_file, "Unable to create a temporary file", true);
-
-        return std::make_pair(std::move(tmp_file), std::move(tmp));
     }
 #endif // _MSC_VER
 
@@ -347,9 +365,20 @@ private:
     #else
         std::array<char, 256> buffer;
         std::string result;
-        while (fgets(buffer.data(), buffer.size(), pipe.get()) != nullptr)
+        bool failed = false;
+        while (!feof(pipe.get()) && !failed)
         {
-            result += buffer.data();
+            clearerr(pipe.get());
+            size_t count = fread(buffer.data(), 1, buffer.size(), pipe.get());
+            failed = ferror(pipe.get()) && errno != EINTR;
+            result.append(buffer.data(), count);
+        }
+
+        // What was read is the whole text only if nothing failed on the way
+        if (pclose(pipe.release()) != 0 || failed)
+        {
+            log(log::LogLevel::xERROR, "PREPROCESS", "The preprocessor failed: " + preprocessor_exec);
+            throw std::runtime_error("The preprocessor failed!");
         }
         return result;
     #endif // _MSC_VER
@@ -383,18 +412,19 @@ template<>
 inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::preprocess_strategy::temporary_file>(
             const std::string& idl_string) const
 {
-    auto [os, tmp] = get_temporary_file();
+    TemporaryFile tmp;
+    create_temporary_file(tmp);
 
     // Populate
+    std::ofstream os(tmp.path, std::ios_base::trunc | std::ios_base::out);
     os << idl_string;
     os.close();
+    if (!os)
+    {
+        throw std::runtime_error("Unable to write a temporary file");
+    }
 
-    auto processed = preprocess_file(tmp.string());
-
-    // dispose
-    std::filesystem::remove(tmp);
-
-    return processed;
+    return preprocess_file(tmp.path);
 }
 
 inline std::string PreprocessorContext::preprocess_string(
@@ -537,6 +567,7 @@ public:
             const std::string& idl_string,
             Context& context)
     {
+        context.success = false;
         context.instance_ = shared_from_this();
         context_ = &context;
         std::shared_ptr<peg::Ast> ast;
@@ -551,9 +582,9 @@ public:
 
         ast = parser_.optimize_ast(ast);
         build_on_ast(ast);
-        context_->success = true;
         context_->log(log::LogLevel::xDEBUG, "RESULT",
                 "The parser finished.");
+        context_->success = true;
         return true;
     }
 
@@ -577,9 +608,9 @@ public:
             const std::string& idl_file,
             Context& context)
     {
+        context.success = false;
         context.instance_ = shared_from_this();
         context_ = &context;
-        std::shared_ptr<peg::Ast> ast;
         if (context_->preprocess)
         {
             std::string file_content = context_->preprocess_file(idl_file);
@@ -587,7 +618,11 @@ public:
         }
 
         std::ostringstream os;
-        os << std::ifstream(idl_file).rdbuf();
+        if (!(os << std::ifstream(idl_file).rdbuf()))
+        {
+            context_->log(log::LogLevel::xERROR, "FILE", "Cannot read file: " + idl_file);
+            return false;
+        }
         return parse(os.str(), context);
     }
 
@@ -595,6 +630,7 @@ public:
             const std::string& idl_string,
             Context& context)
     {
+        context.success = false;
         context.instance_ = shared_from_this();
 
         if (context.preprocess)
-- 
2.43.0


From 7b262455df7625a027e16d6fe104423ad2ff1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 19/37] fix: give the preprocessor the exact text of the IDL

---
 include/xtypes/idl/parser.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 06ab1ca..d8f2eee 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -395,11 +395,22 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     {
         args += include_flag + inc_path + " ";
     }
+#ifdef _MSC_VER
     // Escape double quotes inside the idl_string
     std::string escaped_idl_string = idl_string;
     replace_all_string(escaped_idl_string, "\"", "\\\"");
     std::string cmd = "echo \"" + escaped_idl_string + "\" | "
             + preprocessor_exec + " " + args + error_redir;
+#else
+    // The shell changes nothing between single quotes, which have to be escaped themselves
+    std::string quoted_idl_string;
+    for (char c : idl_string)
+    {
+        quoted_idl_string += c == '\'' ? std::string("'\\''") : std::string(1, c);
+    }
+    std::string cmd = "printf '%s\\n' '" + quoted_idl_string + "' | "
+            + preprocessor_exec + " " + args + error_redir;
+#endif // _MSC_VER
 
     log(log::LogLevel::xDEBUG, "PREPROCESS",
             "Calling preprocessor '" + preprocessor_exec + "' for an IDL string.");
-- 
2.43.0


From be1c5a433eaf8dda18ba1637910c7495a6fe315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 20/37] fix: let parses run in several threads and outlive
 their contexts

---
 include/xtypes/idl/parser.hpp | 47 +++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index d8f2eee..007269b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -49,6 +49,7 @@
 #include <functional>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <regex>
 #include <string_view>
 #include <thread>
@@ -536,9 +537,9 @@ public:
 
     static std::shared_ptr<Parser> instance(bool create = true)
     {
+        std::lock_guard<std::mutex> _(mtx_);
         if (!instance_ && create)
         {
-            std::lock_guard<std::mutex> _(mtx_);
             instance_ = std::make_shared<Parser>();
         }
 
@@ -578,9 +579,8 @@ public:
             const std::string& idl_string,
             Context& context)
     {
-        context.success = false;
-        context.instance_ = shared_from_this();
-        context_ = &context;
+        std::lock_guard<std::mutex> _(parse_mtx_); // one parse at a time, each with its own context
+        ParseScope scope(*this, context);
         std::shared_ptr<peg::Ast> ast;
 
         if (!parser_.parse(idl_string.c_str(), ast))
@@ -620,18 +620,16 @@ public:
             Context& context)
     {
         context.success = false;
-        context.instance_ = shared_from_this();
-        context_ = &context;
-        if (context_->preprocess)
+        if (context.preprocess)
         {
-            std::string file_content = context_->preprocess_file(idl_file);
+            std::string file_content = context.preprocess_file(idl_file);
             return parse(file_content, context);
         }
 
         std::ostringstream os;
         if (!(os << std::ifstream(idl_file).rdbuf()))
         {
-            context_->log(log::LogLevel::xERROR, "FILE", "Cannot read file: " + idl_file);
+            context.log(log::LogLevel::xERROR, "FILE", "Cannot read file: " + idl_file);
             return false;
         }
         return parse(os.str(), context);
@@ -642,8 +640,6 @@ public:
             Context& context)
     {
         context.success = false;
-        context.instance_ = shared_from_this();
-
         if (context.preprocess)
         {
             return parse(context.preprocess_string(idl_string), context);
@@ -657,9 +653,10 @@ public:
     void get_all_types(
             std::map<std::string, DynamicType::Ptr>& types_map)
     {
-        if(context_)
+        std::lock_guard<std::mutex> _(parse_mtx_);
+        if (std::shared_ptr<Module> module = last_module_.lock())
         {
-            context_->module().fill_all_types(types_map);
+            module->fill_all_types(types_map);
         }
     }
 
@@ -710,8 +707,32 @@ private:
     friend struct Context;
     using LabelsCaseMemberPair = std::pair<std::vector<std::string>, Member>;
 
+    // The parse that is going on, and what remains of it
+    struct ParseScope
+    {
+        Parser& parser;
+
+        ParseScope(
+                Parser& parser,
+                Context& context)
+            : parser(parser)
+        {
+            context.success = false;
+            context.instance_ = parser.shared_from_this();
+            parser.last_module_ = context.module().shared_from_this();
+            parser.context_ = &context;
+        }
+
+        ~ParseScope()
+        {
+            parser.context_ = nullptr;
+        }
+    };
+
     peg::parser parser_;
     Context* context_;
+    std::weak_ptr<Module> last_module_;
+    std::mutex parse_mtx_;
     static std::shared_ptr<Parser> instance_;
     static std::mutex mtx_;
 
-- 
2.43.0


From d748cdcca8e786074b82b4b64440b6765e2f9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:58 +0000
Subject: [PATCH 21/37] fix: refuse the IDL types that are not supported

---
 include/xtypes/idl/parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 007269b..968b83b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -2084,14 +2084,14 @@ private:
                 return MapType(*key_type, *inner_type, size);
             }
             default:
-                return type_spec(node, outer);
+                break;
         }
 
+        const std::string msg = "Type " + node->name + " " + token + " is not supported.";
         context_->log(log::LogLevel::xERROR, "UNKNOWN_TYPE",
-                token,
+                msg,
                 node);
-
-        return DynamicType::Ptr();
+        throw exception(msg, node);
     }
 
     size_t get_dimension(
-- 
2.43.0


From 5e9ea052eda62097c44e8fb61d3fe67b99da8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 22/37] fix: declare every name of an IDL typedef, and its
 dimensions in every notation

---
 include/xtypes/idl/grammar.hpp |   2 +-
 include/xtypes/idl/parser.hpp  | 122 ++++++++++++---------------------
 2 files changed, 45 insertions(+), 79 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5b144ce..c2ee503 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -160,7 +160,7 @@ SIMPLE_DECLARATOR <- IDENTIFIER
 TYPEDEF_DLC <- KW_TYPEDEF TYPE_DECLARATOR
 TYPE_DECLARATOR <- (CONSTR_TYPE_DLC / TEMPLATE_TYPE_SPEC / SIMPLE_TYPE_SPEC) WS? ANY_DECLARATORS
 ANY_DECLARATORS <- ANY_DECLARATOR (COMMA ANY_DECLARATOR)*
-ANY_DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR /
+ANY_DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR
 DECLARATORS <- DECLARATOR (COMMA DECLARATOR)*
 DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR
 
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 968b83b..9254509 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -47,6 +47,7 @@
 #include <filesystem>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <mutex>
@@ -1039,25 +1040,25 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
-        std::string name;
-        std::vector<size_t> dimensions;
+        std::vector<std::pair<std::string, std::vector<size_t> > > declarators;
 
-        if (ast->nodes[1]->tag == "IDENTIFIER"_)
-        {
-            name = resolve_identifier(ast, ast->nodes[1]->token, outer, context_->ignore_redefinition);
-        }
-        else if (ast->nodes[1]->tag == "ARRAY_DECLARATOR"_)
+        if (ast->nodes[1]->tag == "ANY_DECLARATORS"_)
         {
-            auto& node = ast->nodes[1];
-            name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
-            for (size_t idx = 1; idx < node->nodes.size(); ++idx)
+            for (auto& node : ast->nodes[1]->nodes)
             {
-                dimensions.push_back(std::atoi(node->nodes[idx]->token.data()));
+                identifier(node, outer, declarators, context_->ignore_redefinition);
             }
-            type = get_array_type(dimensions, type);
+        }
+        else
+        {
+            identifier(ast->nodes[1], outer, declarators, context_->ignore_redefinition);
         }
 
-        outer->create_alias(std::move(type), name);
+        for (auto& declarator : declarators)
+        {
+            outer->create_alias(declarator.second.empty() ? type : get_array_type(declarator.second, type),
+                    declarator.first);
+        }
     }
 
     void const_dcl(
@@ -2028,11 +2029,7 @@ private:
             case "STRING_TYPE"_:
                 return StringType();
             case "STRING_SIZE"_:
-                if (outer->has_constant(token))
-                {
-                    return StringType(get_dimension(token, outer, node));
-                }
-                return StringType(std::atoi(token.c_str()));
+                return StringType(get_dimension(token, outer, node));
             case "WIDE_STRING_TYPE"_:
                 if (outer->has_constant(token))
                 {
@@ -2056,11 +2053,11 @@ private:
             case "WSTRING_SIZE"_:
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
-                    return WStringType(std::atoi(token.c_str()));
+                    return WStringType(get_dimension(token, outer, node));
                 }
                 else // CHAR16_T
                 {
-                    return String16Type(std::atoi(token.c_str()));
+                    return String16Type(get_dimension(token, outer, node));
                 }
             case "SEQUENCE_TYPE"_:
             {
@@ -2099,8 +2096,13 @@ private:
             std::shared_ptr<Module>& outer,
             const std::shared_ptr<peg::Ast>& node)
     {
+        if (std::isdigit(static_cast<unsigned char>(value[0])))
+        {
+            return check_dimension(std::strtoll(value.c_str(), nullptr, 0), node); // Decimal, octal or hexadecimal
+        }
+
         DynamicData c_data = outer->constant(value);
-        size_t dim = 0;
+        int64_t dim = -1;
         switch (c_data.type().kind())
         {
             case TypeKind::INT_8_TYPE:
@@ -2128,10 +2130,21 @@ private:
                 dim = c_data.value<uint64_t>();
                 break;
             default:
-                context_->log(log::LogLevel::xERROR, "EXCEPTION",
-                        "Only a positive integer number can be used as dimension.",
-                        node);
-                throw exception("Only a positive integer number can be used as dimension.", node);
+                break;
+        }
+        return check_dimension(dim, node);
+    }
+
+    size_t check_dimension(
+            int64_t dim,
+            const std::shared_ptr<peg::Ast>& node)
+    {
+        if (dim < 0 || dim > std::numeric_limits<uint32_t>::max())
+        {
+            context_->log(log::LogLevel::xERROR, "EXCEPTION",
+                    "Only a positive integer number can be used as dimension.",
+                    node);
+            throw exception("Only a positive integer number can be used as dimension.", node);
         }
         return dim;
     }
@@ -2145,15 +2158,7 @@ private:
         const auto& token_view = node->token;
         const std::string token(token_view.data(), token_view.size());
 
-        if (node->tag == "SCOPED_NAME"_)
-        {
-            return get_dimension(token, outer, node);
-        }
-        else if (!token.empty())
-        {
-            return std::stoul(token);
-        }
-        return 0;
+        return token.empty() ? 0 : get_dimension(token, outer, node);
     }
 
     ArrayType::Ptr get_array_type(
@@ -2256,7 +2261,8 @@ private:
     void identifier(
             const std::shared_ptr<peg::Ast>& node,
             std::shared_ptr<Module>& outer,
-            std::vector<std::pair<std::string, std::vector<size_t> > >& list)
+            std::vector<std::pair<std::string, std::vector<size_t> > >& list,
+            bool ignore_already_used = false)
     {
         using namespace peg::udl;
         std::string name;
@@ -2264,7 +2270,7 @@ private:
         switch (node->tag)
         {
             case "IDENTIFIER"_:
-                name = resolve_identifier(node, node->token, outer);
+                name = resolve_identifier(node, node->token, outer, ignore_already_used);
                 break;
             case "ARRAY_DECLARATOR"_:
             {
@@ -2274,53 +2280,13 @@ private:
                     {
                         case "IDENTIFIER"_:
                         {
-                            name = resolve_identifier(subnode, subnode->token, outer);
+                            name = resolve_identifier(subnode, subnode->token, outer, ignore_already_used);
                             break;
                         }
                         case "INTEGER_LITERAL"_:
-                        {
-                            dimensions.push_back(std::stoul(subnode->token.data()));
-                            break;
-                        }
                         case "SCOPED_NAME"_:
                         {
-                            DynamicData c_data =
-                                    outer->constant(std::string(subnode->token.data(),
-                                            subnode->token.size()));
-                            size_t dim = 0;
-                            switch (c_data.type().kind())
-                            {
-                                case TypeKind::INT_8_TYPE:
-                                    dim = c_data.value<int8_t>();
-                                    break;
-                                case TypeKind::UINT_8_TYPE:
-                                    dim = c_data.value<uint8_t>();
-                                    break;
-                                case TypeKind::INT_16_TYPE:
-                                    dim = c_data.value<int16_t>();
-                                    break;
-                                case TypeKind::UINT_16_TYPE:
-                                    dim = c_data.value<uint16_t>();
-                                    break;
-                                case TypeKind::INT_32_TYPE:
-                                    dim = c_data.value<int32_t>();
-                                    break;
-                                case TypeKind::UINT_32_TYPE:
-                                    dim = c_data.value<uint32_t>();
-                                    break;
-                                case TypeKind::INT_64_TYPE:
-                                    dim = c_data.value<int64_t>();
-                                    break;
-                                case TypeKind::UINT_64_TYPE:
-                                    dim = c_data.value<uint64_t>();
-                                    break;
-                                default:
-                                    context_->log(log::LogLevel::xERROR, "EXCEPTION",
-                                            "Only a positive intenger number can be used as dimension.",
-                                            node);
-                                    throw exception("Only a positive intenger number can be used as dimension.", node);
-                            }
-                            dimensions.push_back(dim);
+                            dimensions.push_back(get_dimension(outer, subnode));
                             break;
                         }
                     }
-- 
2.43.0


From 96642553a22e8c259c338837996b81dbcb060e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 23/37] fix: solve IDL constant expressions from left to right,
 with every operator

---
 include/xtypes/idl/grammar.hpp |  12 +--
 include/xtypes/idl/parser.hpp  | 130 +++++++++++++++------------------
 2 files changed, 65 insertions(+), 77 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index c2ee503..e12db1d 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -66,12 +66,12 @@ CONST_TYPE <-
 #CONST_EXPR <- OR_EXPR
 #OR_EXPR <- XOR_EXPR OR_OP OR_EXPR / XOR_EXPR
 
-CONST_EXPR <- XOR_EXPR OR_OP CONST_EXPR / XOR_EXPR
-XOR_EXPR <- AND_EXPR XOR_OP XOR_EXPR / AND_EXPR
-AND_EXPR <- SHIFT_EXPR AND_OP AND_EXPR / SHIFT_EXPR
-SHIFT_EXPR <- ADD_EXPR ANY_SHITF_OP SHIFT_EXPR / ADD_EXPR
-ADD_EXPR <- MULT_EXPR ANY_ADD_OP ADD_EXPR / MULT_EXPR
-MULT_EXPR <- UNARY_EXPR ANY_MULT_OP MULT_EXPR / UNARY_EXPR
+CONST_EXPR <- XOR_EXPR (OR_OP XOR_EXPR)*
+XOR_EXPR <- AND_EXPR (XOR_OP AND_EXPR)*
+AND_EXPR <- SHIFT_EXPR (AND_OP SHIFT_EXPR)*
+SHIFT_EXPR <- ADD_EXPR (ANY_SHITF_OP ADD_EXPR)*
+ADD_EXPR <- MULT_EXPR (ANY_ADD_OP MULT_EXPR)*
+MULT_EXPR <- UNARY_EXPR (ANY_MULT_OP UNARY_EXPR)*
 UNARY_EXPR <- UNARY_OP PRIMARY_EXPR / PRIMARY_EXPR
 PRIMARY_EXPR <- OPEN_PARENTHESES CONST_EXPR CLOSE_PARENTHESES / SCOPED_OR_LITERAL
 SCOPED_OR_LITERAL <- LITERAL / SCOPED_NAME
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 9254509..5d90471 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1349,8 +1349,17 @@ private:
                 break;
             }
             case "SCOPED_NAME"_:
-                result = outer->constant(std::string(ast->token.data(), ast->token.size()));
+            {
+                const std::string name(ast->token.data(), ast->token.size());
+                if (!outer->has_constant(name))
+                {
+                    const std::string msg = "Constant " + name + " is unknown";
+                    context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
+                    throw exception(msg, ast);
+                }
+                result = DynamicData(outer->constant(name), type);
                 break;
+            }
             case "UNARY_EXPR"_:
             {
                 result = solve_expr(type, ast->nodes[1], outer);
@@ -1359,93 +1368,72 @@ private:
                     DynamicData temp(-result);
                     result = temp;
                 }
-            }
-            break;
-            case "MULT_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                if (ast->nodes[1]->tag == "MULT_OP"_)
-                {
-                    DynamicData temp(lho* rho);
-                    result = temp;
-                }
-                else if (ast->nodes[1]->tag == "DIV_OP"_)
+                else if (ast->nodes[0]->tag == "NEG_OP"_)
                 {
-                    DynamicData temp(lho / rho);
-                    result = temp;
-                    //return lho / rho;
-                }
-                else if (ast->nodes[1]->tag == "MOD_OP"_)
-                {
-                    DynamicData temp(lho % rho);
+                    DynamicData temp(~result);
                     result = temp;
                 }
             }
             break;
+            case "MULT_EXPR"_:
             case "ADD_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "ADD_OP"_)
-                {
-                    temp = DynamicData(lho + rho);
-                }
-                else if (ast->nodes[1]->tag == "SUB_OP"_)
-                {
-                    temp = DynamicData(lho - rho);
-                }
-                result = temp;
-            }
-            break;
             case "SHIFT_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "LSHIFT_OP"_)
-                {
-                    temp = DynamicData(lho << rho);
-                }
-                else if (ast->nodes[1]->tag == "RSHIFT_OP"_)
-                {
-                    temp = DynamicData(lho >> rho);
-                }
-                result = temp;
-            }
-            break;
             case "AND_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                result = DynamicData(lho & rho);
-            }
-            break;
             case "XOR_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                result = DynamicData(lho ^ rho);
-            }
-            break;
             case "CONST_EXPR"_: // OR_EXPR
             {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                result = DynamicData(lho | rho);
+                // Operators of the same precedence are solved from left to right
+                result = solve_expr(type, ast->nodes[0], outer);
+                for (size_t idx = 1; idx + 1 < ast->nodes.size(); idx += 2)
+                {
+                    DynamicData rho = solve_expr(type, ast->nodes[idx + 1], outer);
+                    DynamicData temp = solve_operation(result, ast->nodes[idx], rho);
+                    result = temp;
+                }
             }
             break;
         }
         return result;
     }
 
+    DynamicData solve_operation(
+            const DynamicData& lho,
+            const std::shared_ptr<peg::Ast>& op,
+            const DynamicData& rho) const
+    {
+        using namespace peg::udl;
+        if ((op->tag == "DIV_OP"_ || op->tag == "MOD_OP"_) && rho == DynamicData(rho.type()))
+        {
+            const std::string msg = "Division by zero";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, op);
+            throw exception(msg, op);
+        }
+
+        switch (op->tag)
+        {
+            case "MULT_OP"_:
+                return lho * rho;
+            case "DIV_OP"_:
+                return lho / rho;
+            case "MOD_OP"_:
+                return lho % rho;
+            case "ADD_OP"_:
+                return lho + rho;
+            case "SUB_OP"_:
+                return lho - rho;
+            case "LSHIFT_OP"_:
+                return lho << rho;
+            case "RSHIFT_OP"_:
+                return lho >> rho;
+            case "AND_OP"_:
+                return lho & rho;
+            case "XOR_OP"_:
+                return lho ^ rho;
+            default: // OR_OP
+                return lho | rho;
+        }
+    }
+
     void enum_dcl(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer)
-- 
2.43.0


From c27b46d620752756543bf8a332363b07be13c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 24/37] fix: read IDL characters and texts without their quotes
 and escapes

---
 include/xtypes/idl/parser.hpp | 142 +++++++++++++++++++++++++++-------
 1 file changed, 114 insertions(+), 28 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 5d90471..583c2ff 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1079,6 +1079,112 @@ private:
         outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
     }
 
+    static void append_utf8(
+            std::string& text,
+            uint32_t code)
+    {
+        if (code < 0x80)
+        {
+            text += static_cast<char>(code);
+        }
+        else if (code < 0x800)
+        {
+            text += static_cast<char>(0xC0 | (code >> 6));
+            text += static_cast<char>(0x80 | (code & 0x3F));
+        }
+        else
+        {
+            text += static_cast<char>(0xE0 | (code >> 12));
+            text += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+            text += static_cast<char>(0x80 | (code & 0x3F));
+        }
+    }
+
+    /// \brief Appends the characters a literal stands for, those of all its parts one after another.
+    /// Those of a wide literal are given in UTF-8.
+    static void append_literal_text(
+            const peg::Ast& ast,
+            bool wide,
+            std::string& text)
+    {
+        for (const auto& node : ast.nodes) // SUBSTRING_LITERAL
+        {
+            append_literal_text(*node, wide, text);
+        }
+
+        const std::string token(ast.token.data(), ast.token.size());
+        size_t begin = token.find_first_of("\"'");
+        if (begin == std::string::npos)
+        {
+            text += token;
+            return;
+        }
+
+        for (size_t i = begin + 1; i < token.size() && token[i] != token[begin]; ++i)
+        {
+            if (token[i] != '\\')
+            {
+                text += token[i];
+                continue;
+            }
+
+            switch (token[++i])
+            {
+                case 'n': text += '\n'; break;
+                case 't': text += '\t'; break;
+                case 'v': text += '\v'; break;
+                case 'b': text += '\b'; break;
+                case 'r': text += '\r'; break;
+                case 'f': text += '\f'; break;
+                case 'a': text += '\a'; break;
+                case 'x':
+                case 'u':
+                case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7':
+                {
+                    bool octal = token[i] != 'x' && token[i] != 'u';
+                    size_t digits = octal ? 3 : token[i] == 'x' ? 2 : 4;
+                    size_t first = octal ? i : i + 1;
+                    size_t last = first;
+                    while (last < token.size() && last < first + digits && std::isxdigit(static_cast<unsigned char>(token[last]))
+                            && (!octal || (token[last] >= '0' && token[last] <= '7')))
+                    {
+                        ++last;
+                    }
+                    uint32_t code = std::stoul(token.substr(first, last - first), nullptr, octal ? 8 : 16);
+                    if (wide || token[i] == 'u')
+                    {
+                        append_utf8(text, code);
+                    }
+                    else
+                    {
+                        text += static_cast<char>(code);
+                    }
+                    i = last - 1;
+                    break;
+                }
+                default:
+                    text += token[i]; // The character itself: \\ ? ' "
+                    break;
+            }
+        }
+    }
+
+    static std::string literal_text(
+            const std::shared_ptr<peg::Ast>& ast)
+    {
+        std::string text;
+        append_literal_text(*ast, false, text);
+        return text;
+    }
+
+    static std::u16string wide_literal_text(
+            const std::shared_ptr<peg::Ast>& ast)
+    {
+        std::string text;
+        append_literal_text(*ast, true, text);
+        return code_conversion_tool<char16_t>(std::basic_string<XTYPES_CHAR>(text.begin(), text.end()));
+    }
+
     bool get_literal_value(
             DynamicData& data,
             const std::shared_ptr<peg::Ast>& ast) const
@@ -1192,7 +1298,8 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("CHAR"), ast);
                 }
-                char value = literal.at(0);
+                const std::string text = literal_text(ast);
+                char value = text.empty() ? '\0' : text[0];
                 data = value;
                 break;
             }
@@ -1203,9 +1310,7 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux);
-                data = temp[0];
+                data = wide_literal_text(ast)[0];
                 break;
             }
             case TypeKind::WIDE_CHAR_TYPE:
@@ -1215,52 +1320,33 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto aux2 = code_conversion_tool<char16_t>(aux);
-                std::wstring temp(aux2.begin(), aux2.end());
-                data = temp[0];
+                data = static_cast<wchar_t>(wide_literal_text(ast)[0]);
                 break;
             }
             case TypeKind::STRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
-                {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
-                }
-
                 if (tag != "STRING_LITERAL"_ && tag != "UNEXPECTED_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "STRING", message("STRING"), ast);
                 }
 
-                data = aux;
+                data = literal_text(ast);
                 break;
             }
             case TypeKind::WSTRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
-                {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
-                }
-
                 if (tag != "WIDE_STRING_LITERAL"_ && tag != "WIDE_SUBSTRING_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_STRING"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux2(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux2);
-                data = std::wstring(temp.begin(), temp.end());
+                const std::u16string text = wide_literal_text(ast);
+                data = std::wstring(text.begin(), text.end());
                 break;
             }
             case TypeKind::STRING16_TYPE:
             {
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                data = code_conversion_tool<char16_t>(aux);
+                data = wide_literal_text(ast);
                 break;
             }
             case TypeKind::BOOLEAN_TYPE:
-- 
2.43.0


From 0381947075b4a78d6b8960d46dfe6fd776dca943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:29 +0000
Subject: [PATCH 25/37] fix: read the labels of IDL unions by the type of their
 discriminator, and unions of one case

---
 include/xtypes/idl/grammar.hpp |  3 +-
 include/xtypes/idl/parser.hpp  | 68 ++++++++++++++++++++++++++++------
 2 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index e12db1d..ac91c74 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -148,7 +148,8 @@ UNION_DEF <- KW_UNION IDENTIFIER KW_SWITCH OPEN_PARENTHESES SWITCH_TYPE_SPEC CLO
 SWITCH_TYPE_SPEC <- INTEGER_TYPE / CHAR_TYPE / BOOLEAN_TYPE / WIDE_CHAR_TYPE / OCTET_TYPE / SCOPED_NAME
 SWITCH_BODY <- CASE+
 CASE <- CASE_LABEL+ ELEMENT_SPEC SEMICOLON
-CASE_LABEL <- KW_CASE < CONST_EXPR > COLON / < KW_DEFAULT > COLON
+CASE_LABEL <- KW_CASE CONST_EXPR COLON / WS? CASE_DEFAULT COLON
+CASE_DEFAULT <- < "default" > END_KW
 ELEMENT_SPEC <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATOR
 UNION_FORWARD_DCL <- KW_UNION < IDENTIFIER >
 ENUM_DCL <- KW_ENUM IDENTIFIER OPEN_BRACE ENUMERATOR (COMMA ENUMERATOR)* CLOSE_BRACE
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 583c2ff..e4a4a3d 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -706,7 +706,13 @@ public:
 private:
 
     friend struct Context;
-    using LabelsCaseMemberPair = std::pair<std::vector<std::string>, Member>;
+    struct CaseLabels
+    {
+        std::vector<int64_t> values;
+        bool is_default = false;
+    };
+
+    using LabelsCaseMemberPair = std::pair<CaseLabels, Member>;
 
     // The parse that is going on, and what remains of it
     struct ParseScope
@@ -1443,7 +1449,17 @@ private:
                     context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
                     throw exception(msg, ast);
                 }
-                result = DynamicData(outer->constant(name), type);
+                DynamicData constant = outer->constant(name);
+                if (constant.type().is_enumerated_type() && !type.is_enumerated_type())
+                {
+                    DynamicData number(primitive_type<uint32_t>());
+                    number = constant.cast<uint32_t>();
+                    result = DynamicData(number, type);
+                }
+                else
+                {
+                    result = DynamicData(constant, type);
+                }
                 break;
             }
             case "UNARY_EXPR"_:
@@ -1734,7 +1750,7 @@ private:
             context_->log(log::LogLevel::xDEBUG, "UNION_DEF_MEMBER",
                     "Union \"" + name + "\" member: " + member.name(),
                     ast);
-            union_type.add_case_member(pair.first, std::move(member));
+            union_type.add_case_member(pair.first.values, member, pair.first.is_default);
         }
     }
 
@@ -1745,6 +1761,12 @@ private:
             const DynamicType::Ptr type)
     {
         using namespace peg::udl;
+        if (ast->tag == "CASE"_) // The only one
+        {
+            switch_case(ast, outer, member_list, type);
+            return;
+        }
+
         for (const auto& node : ast->nodes)
         {
             switch (node->original_tag)
@@ -1768,10 +1790,10 @@ private:
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
             std::vector<LabelsCaseMemberPair>& member_list,
-            const DynamicType::Ptr)
+            const DynamicType::Ptr type)
     {
         using namespace peg::udl;
-        std::vector<std::string> labels;
+        CaseLabels labels;
         std::vector<Member> member;
 
         for (const auto& node : ast->nodes)
@@ -1780,14 +1802,14 @@ private:
             {
                 case "CASE_LABEL"_:
                 {
-                    const auto& value_view = node->token;
-                    std::string value(value_view.data(), value_view.size());
-                    if (outer->has_constant(value))
+                    if (node->tag == "CASE_DEFAULT"_)
+                    {
+                        labels.is_default = true;
+                    }
+                    else
                     {
-                        DynamicData constant = outer->constant(value);
-                        value = constant.cast<std::string>();
+                        labels.values.push_back(case_label(*type, node, outer));
                     }
-                    labels.emplace_back(std::move(value));
                     break;
                 }
                 case "ELEMENT_SPEC"_:
@@ -1801,6 +1823,30 @@ private:
         }
     }
 
+    int64_t case_label(
+            const DynamicType& discriminator,
+            const std::shared_ptr<peg::Ast>& ast,
+            std::shared_ptr<Module>& outer) const
+    {
+        using namespace peg::udl;
+        const DynamicType& type = discriminator.kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(discriminator).rget()
+                : discriminator;
+
+        if (type.kind() == TypeKind::ENUMERATION_TYPE)
+        {
+            // Enumerators are looked up in their enumeration, whatever their names mean elsewhere
+            const EnumerationType<uint32_t>& enumeration = static_cast<const EnumerationType<uint32_t>&>(type);
+            std::string name(ast->token.data(), ast->token.size());
+            size_t scope = name.rfind("::");
+            name = scope == std::string::npos ? name : name.substr(scope + 2);
+            return enumeration.has_enumerator(name)
+                   ? enumeration.value(name)
+                   : solve_expr(primitive_type<uint32_t>(), ast, outer).cast<int64_t>();
+        }
+        return solve_expr(type, ast, outer).cast<int64_t>();
+    }
+
     void case_member_def(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
-- 
2.43.0


From 027e7ee15e01d4983a417e26b50e21e5055ab29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 26/37] fix: accept comments after any white space of IDL

---
 include/xtypes/idl/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index ac91c74..48ccfd7 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -295,7 +295,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~KW_OPEN_BLOCK_COMMENT <- < "/*" >
 ~KW_CLOSE_BLOCK_COMMENT <- < "*/" >
 # SYMBOLS
-~WS <- COMMENT / [ \t\r\n]+
+~WS <- (COMMENT / [ \t\r\n]+)+
 ~SEMICOLON <- WS? < ';' > WS?
 ~COLON <- WS? < ':' > WS?
 ~DOUBLE_COLON <- "::"
-- 
2.43.0


From e4dfed96a011e665e2a0549717f5a59c9710797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 27/37] fix: refuse a second IDL constant or enumeration of one
 name

---
 include/xtypes/idl/parser.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index e4a4a3d..51bef66 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1082,7 +1082,26 @@ private:
         message << "Found const " << type->name() << " " << identifier << " = " << expr.to_string();
         context_->log(log::LogLevel::xDEBUG, "DECLARATION", message.str(), ast);
 
-        outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
+        const std::string name(identifier.data(), identifier.size());
+        if (!outer->create_constant(name, expr))
+        {
+            redefinition("Constant", name, ast);
+        }
+    }
+
+    void redefinition(
+            const std::string& kind,
+            const std::string& name,
+            const std::shared_ptr<peg::Ast>& ast) const
+    {
+        const std::string msg = kind + " \"" + name + "\" redefinition.";
+        if (context_->ignore_redefinition)
+        {
+            context_->log(log::LogLevel::xINFO, "REDEFINITION", msg, ast);
+            return;
+        }
+        context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
+        throw exception(msg, ast);
     }
 
     static void append_utf8(
@@ -1563,7 +1582,10 @@ private:
             outer->create_constant(token, hack, false, true); // Typically both are accessible
             // End of hack
         }
-        outer->enum_32(std::move(result));
+        if (!outer->enum_32(std::move(result)))
+        {
+            redefinition("Enum", name, ast);
+        }
     }
 
     void struct_fw_dcl(
-- 
2.43.0


From 9e4a6f2d6ae84665085a45371f79aafaaa90f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:41 +0000
Subject: [PATCH 28/37] fix: accept the line markers of preprocessors between
 any tokens of IDL

---
 include/xtypes/idl/grammar.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 48ccfd7..722b8d3 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -30,7 +30,7 @@ inline const char* idl_grammar()
 # Tested at: https://yhirose.github.io/cpp-peglib/
 
 # Building Block Core Data Types:
-DOCUMENT <- WS? SPECIFICATION WS?
+DOCUMENT <- BLANK? SPECIFICATION WS?
 SPECIFICATION <- DEFINITION+
 DEFINITION <- (MODULE_DCL / CONST_DCL / TYPE_DCL / ANNOTATION_DCL) SEMICOLON / PREPROCESSOR_DIRECTIVE
 
@@ -38,7 +38,7 @@ MODULE_DCL <- (ANNOTATION_APPL)* KW_MODULE IDENTIFIER OPEN_BRACE DEFINITION+ CLO
 #SCOPED_NAME <- DOUBLE_COLON IDENTIFIER / (IDENTIFIER DOUBLE_COLON)* IDENTIFIER
 SCOPED_NAME <- < IDENTIFIER DOUBLE_COLON SCOPED_NAME / DOUBLE_COLON SCOPED_NAME / IDENTIFIER >
 
-PREPROCESSOR_DIRECTIVE <- WS? < '#' (NL_ESCAPE / !EOL .)* > EOL
+PREPROCESSOR_DIRECTIVE <- BLANK? < '#' (NL_ESCAPE / !EOL .)* > EOL
 EOL <- '\r\n' / '\n' / '\r' / !.
 NL_ESCAPE <- '\\' EOL
 
@@ -295,7 +295,10 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~KW_OPEN_BLOCK_COMMENT <- < "/*" >
 ~KW_CLOSE_BLOCK_COMMENT <- < "*/" >
 # SYMBOLS
-~WS <- (COMMENT / [ \t\r\n]+)+
+~WS <- (COMMENT / LINE_MARKER / [ \t\r\n]+)+
+~BLANK <- (COMMENT / [ \t\r\n]+)+
+# Preprocessors replace the text they drop by markers, anywhere between two tokens
+~LINE_MARKER <- '#' ' '* ('line' ' ')? DECIMAL_DIGIT (!EOL .)* EOL
 ~SEMICOLON <- WS? < ';' > WS?
 ~COLON <- WS? < ':' > WS?
 ~DOUBLE_COLON <- "::"
-- 
2.43.0


From 11609342cbe80b37de2c3e818a60ac191c454bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:20 +0000
Subject: [PATCH 29/37] fix: end the keywords and boolean literals of IDL where
 their word ends

---
 include/xtypes/idl/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 722b8d3..5c710a1 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -189,7 +189,7 @@ ANNOTATION_APPL_PARAMS <- ANNOTATION_APPL_PARAM (COMMA ANNOTATION_APPL_PARAM)* /
 ANNOTATION_APPL_PARAM <- IDENTIFIER EQUAL_OP CONST_EXPR / CONST_EXPR
 
 # LITERALS
-BOOLEAN_LITERAL <- < "TRUE" / "FALSE" >
+BOOLEAN_LITERAL <- < "TRUE" / "FALSE" > END_KW
 INTEGER_LITERAL <- < OCT_LITERAL / HEX_LITERAL / DEC_LITERAL >
 DEC_LITERAL <- [1-9] DECIMAL_DIGIT* / '0'
 OCT_LITERAL <- '0' OCTAL_DIGIT+
@@ -248,7 +248,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~ES_UNICODE_CHAR <- HEX_DIGIT HEX_DIGIT? HEX_DIGIT? HEX_DIGIT?
 
 # Auxiliar tokens
-~END_KW <- !IDENTIFIER
+~END_KW <- ![0-9a-zA-Z_]
 # KEYWORDS
 ~KW_CONST <- WS? < "const" > END_KW WS?
 ~KW_MODULE <- WS? < "module" > END_KW WS?
-- 
2.43.0


From 14ef1119769882988c539b2fb6b2491965582a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 30/37] fix: accept annotations around white space, and those
 of IDL enumerators

---
 include/xtypes/idl/grammar.hpp | 2 +-
 include/xtypes/idl/parser.hpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5c710a1..bb9a7df 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -184,7 +184,7 @@ ANNOTATION_BODY <- (ANNOTATION_MEMBER / ENUM_DCL SEMICOLON / CONST_DCL SEMICOLON
 ANNOTATION_MEMBER <- WS? ANNOTATION_MEMBER_TYPE WS? SIMPLE_DECLARATOR (KW_DEFAULT CONST_EXPR)? SEMICOLON
 ANNOTATION_MEMBER_TYPE <- CONST_TYPE / ANY_CONST_TYPE / SCOPED_NAME
 ANY_CONST_TYPE <- KW_ANY
-ANNOTATION_APPL <- "@" SCOPED_NAME ( OPEN_PARENTHESES ANNOTATION_APPL_PARAMS CLOSE_PARENTHESES )?
+ANNOTATION_APPL <- WS? "@" SCOPED_NAME ( OPEN_PARENTHESES ANNOTATION_APPL_PARAMS CLOSE_PARENTHESES )? WS?
 ANNOTATION_APPL_PARAMS <- ANNOTATION_APPL_PARAM (COMMA ANNOTATION_APPL_PARAM)* / ANNOTATION_APPL_PARAM
 ANNOTATION_APPL_PARAM <- IDENTIFIER EQUAL_OP CONST_EXPR / CONST_EXPR
 
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 51bef66..e72c8f1 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1569,7 +1569,8 @@ private:
                 ast);
         for (size_t idx = 1; idx < ast->nodes.size(); ++idx)
         {
-            const auto& token_view = ast->nodes[idx]->token;
+            const auto& enumerator = ast->nodes[idx]; // The identifier comes after its annotations, if it has them
+            const auto& token_view = enumerator->nodes.empty() ? enumerator->token : enumerator->nodes.back()->token;
             const std::string token(token_view.data(), token_view.size());
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
-- 
2.43.0


From a34c8194a8ed0ee9fbf2e3f714c3ed979248d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:50 +0000
Subject: [PATCH 31/37] fix: parse constants of enumerations as they are
 generated

A constant of an enumeration is generated as a number, which the parser
took with success and gave the value of the first enumerator.
---
 include/xtypes/idl/parser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index e72c8f1..8ea4131 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1428,6 +1428,16 @@ private:
                 data = value;
                 break;
             }
+            case TypeKind::ENUMERATION_TYPE: // As the generator writes it
+            {
+                if (tag != "INTEGER_LITERAL"_)
+                {
+                    context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
+                }
+                uint32_t value = static_cast<uint32_t>(std::strtoull(literal.data(), nullptr, base));
+                data = value;
+                break;
+            }
             default:
                 context_->log(log::LogLevel::xERROR, "UNEXPECTED_LITERAL_TYPE",
                         message(data.type().name().c_str()), ast);
-- 
2.43.0


From 412afd741f6d64f10dc549f1f00a6ff7d88874d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 32/37] fix: keep a part of an IDL text made of white space

The white space after a part of a text could be another part in its
entirety: of "a" " " only the first was read.
---
 include/xtypes/idl/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index bb9a7df..547bf06 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -199,7 +199,7 @@ WIDE_CHAR_LITERAL <- < 'L' CHAR_LITERAL >
 # String literals must avoid '\0' inside them. Check after parsing!
 STRING_LITERAL <- ( SUBSTRING_LITERAL )+
 SUBSTRING_LITERAL <- < '"' (ESCAPE_SEQUENCE / (!["\\] .))* '"' / "'" (ESCAPE_SEQUENCE / (!['\\] .))* "'"> STRING_WS
-~STRING_WS <- '"' WS? '"' / WS?
+~STRING_WS <- WS?
 WIDE_STRING_LITERAL <- ('L' WIDE_SUBSTRING_LITERAL)+
 WIDE_SUBSTRING_LITERAL <- < SUBSTRING_LITERAL >
 FLOAT_LITERAL <- <
-- 
2.43.0


From b2e3b8930272982b9942bf77a7b575510d969b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 33/37] fix: escape the characters of the texts in generated
 IDL

A quote or a backslash in a constant, or in a label of a union, ended its
literal or became another character.
---
 include/xtypes/idl/generator.hpp | 39 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 42dfaca..f08ebc7 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -218,6 +218,35 @@ inline std::string type_name(
     }
 }
 
+/// \brief Represents a text as the characters of an IDL literal.
+inline std::string escaped_text(
+        const std::string& text)
+{
+    static const std::string characters = "\n\t\v\b\r\f\a\\'\"";
+    static const std::string letters = "ntvbrfa\\'\"";
+
+    std::string escaped;
+    for (char c : text)
+    {
+        const unsigned char code = static_cast<unsigned char>(c);
+        const size_t pos = characters.find(c);
+        if (pos != std::string::npos)
+        {
+            escaped += {'\\', letters[pos]};
+        }
+        else if (code < 0x20 || code == 0x7F)
+        {
+            escaped += {'\\', static_cast<char>('0' + code / 64), static_cast<char>('0' + code / 8 % 8),
+                        static_cast<char>('0' + code % 8)};
+        }
+        else
+        {
+            escaped += c;
+        }
+    }
+    return escaped;
+}
+
 inline std::string label_value(
         size_t value,
         const DynamicType& type)
@@ -237,7 +266,7 @@ inline std::string label_value(
         {
             char temp = static_cast<char>(value);
             std::stringstream ss;
-            ss << "'" << temp << "'";
+            ss << "'" << escaped_text(std::string(1, temp)) << "'";
             return ss.str();
         }
         case TypeKind::CHAR_16_TYPE:
@@ -246,7 +275,7 @@ inline std::string label_value(
             char16_t temp = static_cast<char16_t>(value);
             std::stringstream ss;
             auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, temp));
-            ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
+            ss << "L'" << escaped_text(std::string(aux.begin(), aux.end())) << "'";
             return ss.str();
         }
         case TypeKind::INT_8_TYPE:
@@ -435,7 +464,7 @@ inline std::string wide_literal(
         const std::u16string& text)
 {
     auto aux = code_conversion_tool<XTYPES_CHAR>(text);
-    return std::string(aux.begin(), aux.end());
+    return escaped_text(std::string(aux.begin(), aux.end()));
 }
 
 /// \brief Represents a floating point value as an IDL literal, with all of its significant digits.
@@ -457,13 +486,13 @@ inline std::string get_const_value(
         case TypeKind::BOOLEAN_TYPE:
             return data.value<bool>() ? "TRUE" : "FALSE";
         case TypeKind::CHAR_8_TYPE:
-            return std::string("'") + data.value<char>() + "'";
+            return "'" + escaped_text(std::string(1, data.value<char>())) + "'";
         case TypeKind::CHAR_16_TYPE:
             return "L'" + wide_literal(std::u16string(1, data.value<char16_t>())) + "'";
         case TypeKind::WIDE_CHAR_TYPE:
             return "L'" + wide_literal(to_u16string(std::wstring(1, data.value<wchar_t>()))) + "'";
         case TypeKind::STRING_TYPE:
-            return "\"" + data.value<std::string>() + "\"";
+            return "\"" + escaped_text(data.value<std::string>()) + "\"";
         case TypeKind::WSTRING_TYPE:
             return "L\"" + wide_literal(to_u16string(data.value<std::wstring>())) + "\"";
         case TypeKind::STRING16_TYPE:
-- 
2.43.0


From b6c3cf0a1e4f5e7b67de04210ab7df6a07205501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:48 +0000
Subject: [PATCH 34/37] fix: read the lowest value of a signed integer in IDL

Its literal was read without the sign and negated in the type itself,
which overflows; of int64 the result was another number.
---
 include/xtypes/idl/parser.hpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 8ea4131..1475cee 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1210,9 +1210,17 @@ private:
         return code_conversion_tool<char16_t>(std::basic_string<XTYPES_CHAR>(text.begin(), text.end()));
     }
 
+    static bool is_signed_integer(
+            const DynamicType& type)
+    {
+        return type.kind() == TypeKind::INT_8_TYPE || type.kind() == TypeKind::INT_16_TYPE
+               || type.kind() == TypeKind::INT_32_TYPE || type.kind() == TypeKind::INT_64_TYPE;
+    }
+
     bool get_literal_value(
             DynamicData& data,
-            const std::shared_ptr<peg::Ast>& ast) const
+            const std::shared_ptr<peg::Ast>& ast,
+            bool negative = false) const
     {
         using namespace peg::udl;
         const unsigned int tag = ast->tag;
@@ -1235,6 +1243,13 @@ private:
                     return ss.str();
                 };
 
+        auto number = // The negative of the lowest value of a type isn't one of its values
+                [&]() -> int64_t
+                {
+                    uint64_t magnitude = std::strtoull(literal.data(), nullptr, base);
+                    return static_cast<int64_t>(negative ? 0 - magnitude : magnitude);
+                };
+
         switch (data.type().kind())
         {
             case TypeKind::INT_8_TYPE:
@@ -1243,7 +1258,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int8_t value = static_cast<int8_t>(std::strtoll(literal.data(), nullptr, base));
+                int8_t value = static_cast<int8_t>(number());
                 data = value;
                 break;
             }
@@ -1263,7 +1278,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int16_t value = static_cast<int16_t>(std::strtoll(literal.data(), nullptr, base));
+                int16_t value = static_cast<int16_t>(number());
                 data = value;
                 break;
             }
@@ -1283,7 +1298,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int32_t value = static_cast<int32_t>(std::strtoll(literal.data(), nullptr, base));
+                int32_t value = static_cast<int32_t>(number());
                 data = value;
                 break;
             }
@@ -1303,7 +1318,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int64_t value = static_cast<int64_t>(std::strtoll(literal.data(), nullptr, base));
+                int64_t value = static_cast<int64_t>(number());
                 data = value;
                 break;
             }
@@ -1493,6 +1508,12 @@ private:
             }
             case "UNARY_EXPR"_:
             {
+                if (ast->nodes[0]->tag == "SUB_OP"_ && ast->nodes[1]->tag == "INTEGER_LITERAL"_
+                        && is_signed_integer(result.type()))
+                {
+                    get_literal_value(result, ast->nodes[1], true);
+                    break;
+                }
                 result = solve_expr(type, ast->nodes[1], outer);
                 if (ast->nodes[0]->tag == "SUB_OP"_)
                 {
-- 
2.43.0


From e6a5aafca684b05356d7589ef37757572fd23228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:57 +0000
Subject: [PATCH 35/37] fix: take the escape off the names of IDL enumerations,
 enumerators and constants

They kept the underscore that is no part of the name, and could be reserved
words.
---
 include/xtypes/idl/parser.hpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 1475cee..52a7999 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -916,11 +916,10 @@ private:
         return scope;
     }
 
-    std::string resolve_identifier(
+    /// \brief The name an identifier declares: without its escape, if it has one. Reserved words have to be escaped.
+    std::string declared_name(
             const std::shared_ptr<peg::Ast>& ast,
-            const std::string_view& identifier,
-            std::shared_ptr<Module>& scope,
-            bool ignore_already_used = false)
+            const std::string_view& identifier)
     {
         if (identifier.find("_") == 0)
         {
@@ -942,6 +941,20 @@ private:
             }
             context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
         }
+        return std::string(identifier.data(), identifier.size());
+    }
+
+    std::string resolve_identifier(
+            const std::shared_ptr<peg::Ast>& ast,
+            const std::string_view& identifier,
+            std::shared_ptr<Module>& scope,
+            bool ignore_already_used = false)
+    {
+        const std::string name = declared_name(ast, identifier);
+        if (name.size() != identifier.size())
+        {
+            return name;
+        }
 
         if (scope->has_symbol(std::string(identifier.data(), identifier.size())))
         {
@@ -1074,15 +1087,14 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
-        const auto& identifier = ast->nodes[1]->token;
+        const std::string name = declared_name(ast, ast->nodes[1]->token);
         DynamicData expr(*type);
         expr = solve_expr(*type, ast->nodes[2], outer);
 
         std::stringstream message;
-        message << "Found const " << type->name() << " " << identifier << " = " << expr.to_string();
+        message << "Found const " << type->name() << " " << name << " = " << expr.to_string();
         context_->log(log::LogLevel::xDEBUG, "DECLARATION", message.str(), ast);
 
-        const std::string name(identifier.data(), identifier.size());
         if (!outer->create_constant(name, expr))
         {
             redefinition("Constant", name, ast);
@@ -1592,8 +1604,7 @@ private:
     {
         using namespace peg::udl;
 
-        const auto& name_view = ast->nodes[0]->token;
-        const std::string name(name_view.data(), name_view.size());
+        const std::string name = declared_name(ast, ast->nodes[0]->token);
         EnumerationType<uint32_t> result(name); // TODO: Support other Enum types?, the grammar should be upgraded.
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
@@ -1602,7 +1613,7 @@ private:
         {
             const auto& enumerator = ast->nodes[idx]; // The identifier comes after its annotations, if it has them
             const auto& token_view = enumerator->nodes.empty() ? enumerator->token : enumerator->nodes.back()->token;
-            const std::string token(token_view.data(), token_view.size());
+            const std::string token = declared_name(ast, token_view);
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
                     ast);
-- 
2.43.0


From 33d94b415906632e277671b54ff8cd18c864a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:21 +0000
Subject: [PATCH 36/37] fix: give each part of the IDL of a module in its own
 modules

---
 include/xtypes/idl/generator.hpp         |  11 +--
 include/xtypes/idl/generator_deptree.hpp | 100 ++++++++---------------
 2 files changed, 38 insertions(+), 73 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index f08ebc7..223ae00 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -334,6 +334,7 @@ inline std::string structure(
     }
     ss << std::endl << std::string(tabs * 4, ' ') << "{" << std::endl;
 
+    std::string dependencies;
     for (size_t idx = inherit_members(type); idx < type.members().size(); ++idx)
     {
         const Member& member = type.member(idx);
@@ -346,16 +347,16 @@ inline std::string structure(
         {
             if (member.type().kind() == TypeKind::STRUCTURE_TYPE && struct_idl != nullptr)
             {
-                if (struct_idl->find(struct_node->type().name() + ":dependencies") != struct_idl->end())
-                {
-                    (*struct_idl)[struct_node->type().name() + ":dependencies"] += ",";
-                }
-                (*struct_idl)[struct_node->type().name() + ":dependencies"] += member.type().name();
+                dependencies += (dependencies.empty() ? "" : ",") + member.type().name();
             }
             ss << generator::type_name(struct_node, member.type(), true) << " " << member.name() << ";";
         }
         ss << std::endl;
     }
+    if (!dependencies.empty())
+    {
+        (*struct_idl)[struct_node->type().name() + ":dependencies"] = dependencies;
+    }
     ss << std::string(tabs * 4, ' ') << "};" << std::endl;
     return ss.str();
 }
diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 5f49035..a828303 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -174,6 +174,14 @@ public:
         return node_.second.parent();
     }
 
+    /// \brief Gets this DependencyNode's name, with the scope of the module that contains it.
+    /// \returns The scoped name.
+    std::string scoped_name() const
+    {
+        const std::string scope = node_.second.parent().scope();
+        return scope.empty() ? name() : scope + "::" + name();
+    }
+
     /// \brief Ask the DependencyNode if it does have any ancestor.
     /// An ancestor would be another DependencyNode to be declared prior
     /// to this one during the IDL generation.
@@ -1051,15 +1059,15 @@ public:
         std::stringstream ss_node;
         ss_node << node.generate_idl_sentence(tabs, struct_idl);
 
-        if (ss_node.rdbuf()->in_avail() &&
-            (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
+        if (struct_idl != nullptr && !ss_node.str().empty())
         {
-            ss_node << std::endl;
+            (*struct_idl)[node.scoped_name()] = enclose(ss_node.str(), tabs);
         }
 
-        if (struct_idl != nullptr)
+        if (ss_node.rdbuf()->in_avail() &&
+            (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
         {
-            (*struct_idl)[node.type().name()] = ss_node.str();
+            ss_node << std::endl;
         }
 
         return ss_node.str();
@@ -1067,6 +1075,25 @@ public:
 
 private:
 
+    /// \brief Enclose an IDL sentence between this module and its outer ones.
+    /// \param[in] sentence The IDL sentence to be enclosed.
+    /// \param[in] tabs Padding of the sentence.
+    /// \returns An string with the sentence inside of its modules.
+    std::string enclose(
+            const std::string& sentence,
+            unsigned int tabs) const
+    {
+        if (module().name().empty())
+        {
+            return sentence;
+        }
+
+        const std::string padding(tabs > 0 ? 4 * (tabs - 1) : 0, ' ');
+        const std::string enclosed = padding + "module " + module().name() + "\n" + padding + "{\n"
+                + sentence + padding + "};\n";
+        return has_outer() ? outer()->enclose(enclosed, tabs > 0 ? tabs - 1 : 0) : enclosed;
+    }
+
     bool iterated_;
     const Module& module_;
     const std::shared_ptr<DependencyModule>& d_root_;
@@ -1208,22 +1235,6 @@ public:
         {
             ss << std::string(4 * tabs, ' ') << "module " << dep_mod->module().name() << std::endl;
             ss << std::string(4 * tabs, ' ') << "{" << std::endl;
-
-            if (module_idl != nullptr)
-            {
-                if (module_idl->find(dep_mod->module().name() + ":DependencyModule") == module_idl->end() && !root)
-                {
-                    if (dep_mod->has_outer() && module_idl->find(dep_mod->outer()->module().name() + ":DependencyModule")
-                         != module_idl->end())
-                    {
-                        (*module_idl)[dep_mod->outer()->module().name() + ":DependencyModule"] += ss.str();
-                    }
-                    else
-                    {
-                        (*module_idl)[dep_mod->module().name() + ":DependencyModule"] = ss.str();
-                    }
-                }
-            }
         }
 
         for (auto& node : dep_mod->node_set())
@@ -1242,56 +1253,9 @@ public:
             }
         }
 
-        if (module_idl != nullptr)
-        {
-            for (const auto& pair : *module_idl)
-            {
-                if (pair.first.find(":DependencyModule") == std::string::npos
-                        && pair.first.find(":dependencies") == std::string::npos
-                        && pair.first.find(dep_mod->module().name()) != std::string::npos)
-                {
-                    std::string dep = "";
-
-                    if (module_idl->find(dep_mod->module().name() + ":DependencyModule") != module_idl->end())
-                    {
-                        dep = (*module_idl)[dep_mod->module().name() + ":DependencyModule"];
-                    }
-
-                    (*module_idl)[pair.first] = dep + pair.second;
-                }
-            }
-        }
-
         if (!root)
         {
             ss << std::string(4 * tabs, ' ') << "};" << std::endl;
-
-            if (module_idl != nullptr)
-            {
-                for (const auto& pair : *module_idl)
-                {
-                    if (pair.first.find(":DependencyModule") == std::string::npos
-                            && pair.first.find(":dependencies") == std::string::npos
-                            && pair.first.find(dep_mod->module().name()) != std::string::npos)
-                    {
-                        if ((dep_mod->has_outer() && pair.first.find(dep_mod->outer()->module().name()) != std::string::npos)
-                                || !dep_mod->has_outer())
-                        {
-                            (*module_idl)[pair.first] = pair.second + std::string(4 * tabs, ' ') + "};\n";
-                        }
-
-                    }
-                }
-            }
-        }
-
-        if (module_idl != nullptr)
-        {
-            auto it = module_idl->find(dep_mod->module().name() + ":DependencyModule");
-            if(it != module_idl->end())
-            {
-                module_idl->erase(it);
-            }
         }
 
         return ss.str();
-- 
2.43.0


From 9bccc80bd8976624f6c34e88cf0b99e2081a60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:21 +0000
Subject: [PATCH 37/37] fix: visit the case member selected once the union has
 been visited

---
 include/xtypes/UnionType.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 03dd5ba..a634455 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -429,11 +429,14 @@ public:
             const InstanceNode& node,
             InstanceVisitor visitor) const override
     {
-        int64_t disc_value = current_label(disc()->type(), node.instance);
+        xtypes_assert(active_member(node.instance) != nullptr,
+            "UnionType '" << name() << "' doesn't have a case member selected.");
+        visitor(node);
 
+        // The visitor could have selected another case member
+        int64_t disc_value = current_label(disc()->type(), node.instance);
         const Member* member = find_case_member(disc_value);
         xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
-        visitor(node);
         InstanceNode child(
             node,
             member->type(),
-- 
2.43.0

