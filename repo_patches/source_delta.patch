From b4719f9594f9c49fc60b240beb1655f3b4c6d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 01/32] fix: report failures of flushing and closing a written
 file

Data buffered by the stream are written, and a full device is noticed, as late as in the close done by the
destructor, where the failure was ignored and the incomplete file taken for a success.
---
 runtime/src/zserio/DebugStringUtil.h | 2 ++
 runtime/src/zserio/FileUtil.cpp      | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 72b6c1e..beb6382 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -66,6 +66,8 @@ void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
+    // buffered data are written and device errors are reported as late as during the close
+    stream.close();
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 9bbc5f6..8d954a2 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -20,6 +20,13 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
+
+    // buffered data are written and device errors are reported as late as during the close
+    stream.close();
+    if (!stream)
+    {
+        throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
+    }
 }
 
 BitBuffer readBufferFromFile(std::string_view fileName)
-- 
2.43.0


From 1e2bb2c9b6be1be532a38125114dd28b6973401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 02/32] fix: align to more than 64 bits in bit stream reader
 and writer

---
 runtime/src/zserio/BitStreamReader.cpp | 8 ++++++--
 runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..cdd2913 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -865,8 +865,12 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        BitPosType skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            (void)readUnsignedBits64(64);
+        }
+        (void)readUnsignedBits64(static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..0ccaa97 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -533,8 +533,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        BitPosType skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeUnsignedBits64(0, 64);
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From cedaed5215193e589a2bd1f3df14cfe34a972dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 03/32] fix: keep bit stream reader consistent after reaching
 the end of the buffer

---
 runtime/src/zserio/BitStreamReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index cdd2913..afb6bb8 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -301,6 +301,7 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
+        ctx.cacheNumBits = 0; // the bits must not be used again if the end of the buffer is reached
 
         // load next piece of buffer into cache
         loadCacheNext(ctx, numBits);
-- 
2.43.0


From f465ddb4ba059b283467739d3b8479c6d49e9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 04/32] fix: reject varsize values which do not fit into 32
 bits

---
 runtime/src/zserio/BitStreamReader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index afb6bb8..b75e2a6 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -810,14 +810,16 @@ VarSize BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // byte 5 (the encoded value can have up to 36 bits)
+    const uint64_t fullResult = static_cast<uint64_t>(result) << 8U |
+            static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8));
+    if (fullResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << fullResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(fullResult);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From d3f79dc41e1df5c1ec40d357197d12e3babaff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 05/32] fix: keep Any consistent when copying, moving or
 constructing of its value fails

Heap storage leaked and the holder pretended to have a value when the value's
constructor, copy or move threw. Swapping with an unequal propagating allocator
returned the storage to a wrong allocator.
---
 runtime/src/zserio/Any.h | 100 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 87 insertions(+), 13 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..0ee6c3d 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -137,6 +137,11 @@ public:
         return m_typedHolder.value();
     }
 
+    bool hasValue() const noexcept
+    {
+        return m_typedHolder.has_value();
+    }
+
     bool isType(detail::TypeIdHolder::type_id typeId) const override
     {
         return detail::TypeIdHolder::get<T>() == typeId;
@@ -186,7 +191,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +211,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -238,7 +259,15 @@ public:
     IHolder<ALLOC>* clone(void* storage) const override
     {
         NonHeapHolder* holder = new (storage) NonHeapHolder();
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->~NonHeapHolder();
+            throw;
+        }
         return holder;
     }
 
@@ -451,6 +480,11 @@ public:
      */
     void swap(BasicAny& other)
     {
+        if (this == &other)
+        {
+            return;
+        }
+
         if (!m_isInPlace && m_untypedHolder.heap != nullptr && !other.m_isInPlace &&
                 other.m_untypedHolder.heap != nullptr && get_allocator_ref() == other.get_allocator_ref())
         {
@@ -458,15 +492,20 @@ public:
         }
         else
         {
-            BasicAny tmp(std::move(*this), get_allocator_ref());
-            move(std::move(other));
-            other.move(std::move(tmp));
+            // values moved to the allocator used in the swap target, only this step can throw
+            constexpr bool PROPAGATE = AllocTraits::propagate_on_container_swap::value;
+            BasicAny tmp(std::move(*this), PROPAGATE ? get_allocator() : other.get_allocator());
+            BasicAny otherTmp(std::move(other), PROPAGATE ? other.get_allocator() : get_allocator());
 
-            if constexpr (AllocTraits::propagate_on_container_swap::value)
+            if constexpr (PROPAGATE)
             {
-                using std::swap;
-                swap(get_allocator_ref(), other.get_allocator_ref());
+                const ALLOC allocator = get_allocator();
+                set_allocator(other.get_allocator());
+                other.set_allocator(allocator);
             }
+
+            move(std::move(otherTmp));
+            other.move(std::move(tmp));
         }
     }
 
@@ -486,7 +525,16 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            clearEmptyHolder(*holder);
+            throw;
+        }
     }
 
     /**
@@ -497,8 +545,16 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            clearEmptyHolder(*holder);
+            throw;
+        }
     }
 
     /**
@@ -601,7 +657,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr; // storage has been overwritten
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -653,6 +717,16 @@ private:
         }
     }
 
+    // no value is held when the construction of the value has thrown
+    template <typename T>
+    void clearEmptyHolder(const detail::HolderBase<T, ALLOC>& holder)
+    {
+        if (!holder.hasValue())
+        {
+            clearHolder();
+        }
+    }
+
     bool hasHolder() const noexcept
     {
         return (m_isInPlace || m_untypedHolder.heap != nullptr);
-- 
2.43.0


From 0dcd1c6cd8be8b11d9e62568e2d691c096fb46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 06/32] fix: assigning its own value to Optional and swapping
 of Optionals with unequal allocators

The stored value was destroyed before the assigned value was used, and heap
storage was returned to a wrong memory resource after the swap.
---
 runtime/src/zserio/Optional.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..1211840 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -350,6 +350,15 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
+        if constexpr (std::is_assignable_v<T&, U>)
+        {
+            if (has_value())
+            {
+                // the given value can be the stored one, so it must not be destroyed before it is used
+                **this = std::forward<U>(value);
+                return *this;
+            }
+        }
         emplace(std::forward<U>(value));
         return *this;
     }
@@ -486,6 +495,22 @@ public:
      */
     void swap(BasicOptional& other)
     {
+        if constexpr (detail::is_optional_heap_allocated_v<T> &&
+                !AllocTraits::propagate_on_container_swap::value && !AllocTraits::is_always_equal::value)
+        {
+            if (!(get_allocator_ref() == other.get_allocator_ref()))
+            {
+                // storage cannot be exchanged, values must be moved
+                BasicOptional tmp(std::move(*this), other.get_allocator_ref());
+                BasicOptional otherTmp(std::move(other), get_allocator_ref());
+                reset();
+                move(std::move(otherTmp));
+                other.reset();
+                other.move(std::move(tmp));
+                return;
+            }
+        }
+
         m_data.swap(other.m_data);
         if constexpr (AllocTraits::propagate_on_container_swap::value)
         {
-- 
2.43.0


From 2861e6cccc4fea5aefb95343b52d6b2a81bb6639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 07/32] fix: keep BitBuffer consistent after move and after
 failed assignment

The bit size was kept although the bytes had gone, so that comparing or hashing
read beyond the buffer.
---
 runtime/src/zserio/BitBuffer.h | 85 ++++++++++++++++++++++++++++++++--
 1 file changed, 80 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..2e0424e 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -125,14 +125,36 @@ public:
     ~BasicBitBuffer() = default;
 
     BasicBitBuffer(const BasicBitBuffer&) = default;
-    BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
-
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
     /**
      * \}
      */
 
+    /**
+     * Copy assignment operator.
+     *
+     * \param other The bit buffer to copy from.
+     *
+     * \return Reference to this.
+     */
+    BasicBitBuffer& operator=(const BasicBitBuffer& other);
+
+    /**
+     * Move constructor.
+     *
+     * \param other The bit buffer to move from. It is empty after move.
+     */
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+
+    /**
+     * Move assignment operator.
+     *
+     * \param other The bit buffer to move from. It is empty after move.
+     *
+     * \return Reference to this.
+     */
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>);
+
     /**
      * Equal operator.
      *
@@ -258,6 +280,7 @@ public:
     Span<uint8_t> getData();
 
 private:
+    void clear() noexcept;
     uint8_t getMaskedLastByte() const;
 
     std::vector<uint8_t, ALLOC> m_buffer;
@@ -330,7 +353,52 @@ template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
         m_bitSize(other.m_bitSize)
-{}
+{
+    other.clear();
+}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(other.m_bitSize)
+{
+    other.clear();
+}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(const BasicBitBuffer& other)
+{
+    if (this != &other)
+    {
+        try
+        {
+            m_buffer = other.m_buffer;
+        }
+        catch (...)
+        {
+            clear(); // the content might have been lost already
+            throw;
+        }
+        m_bitSize = other.m_bitSize;
+    }
+
+    return *this;
+}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>)
+{
+    if (this != &other)
+    {
+        clear(); // the content can get lost when moving fails
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = other.m_bitSize;
+        other.clear();
+    }
+
+    return *this;
+}
 
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
@@ -473,6 +541,13 @@ Span<uint8_t> BasicBitBuffer<ALLOC>::getData()
     return Span<uint8_t>(m_buffer);
 }
 
+template <typename ALLOC>
+void BasicBitBuffer<ALLOC>::clear() noexcept
+{
+    m_buffer.clear();
+    m_bitSize = 0;
+}
+
 template <typename ALLOC>
 uint8_t BasicBitBuffer<ALLOC>::getMaskedLastByte() const
 {
-- 
2.43.0


From 2e5ab5c7885478b65ee41e8f8acb4f0c0fbaae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 08/32] fix: do not write beyond the buffer when bytes or
 string of 512 MB and more are written

---
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 0ccaa97..a4876b1 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -484,7 +484,7 @@ void BitStreamWriter::writeBytes(BytesView data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.end(), m_buffer.begin() + beginBitPosition / 8);
@@ -510,7 +510,7 @@ void BitStreamWriter::writeString(std::string_view data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.begin() + len, m_buffer.data() + beginBitPosition / 8);
-- 
2.43.0


From d5e4624b23fd498565f8657e2ec570467e9e92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 09/32] fix: keep data of a value held by Any in the resource
 of the Any

---
 runtime/src/zserio/Any.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 0ee6c3d..2f255ff 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -127,6 +127,20 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    // allocator-aware value must not stay in the memory of the holder it is taken from
+    template <typename OPTIONAL>
+    void setHolder(const ALLOC& allocator, OPTIONAL&& value)
+    {
+        if (value.has_value())
+        {
+            construct(allocator, *std::forward<OPTIONAL>(value));
+        }
+        else
+        {
+            m_typedHolder.reset();
+        }
+    }
+
     T& get()
     {
         return m_typedHolder.value();
@@ -193,7 +207,7 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(this->getHolder());
+            holder->setHolder(allocator, this->getHolder());
         }
         catch (...)
         {
@@ -213,7 +227,7 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(std::move(this->getHolder()));
+            holder->setHolder(allocator, std::move(this->getHolder()));
         }
         catch (...)
         {
-- 
2.43.0


From 616617e798b2b21358c68fdcf38f3671a4cb1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 10/32] fix: keep data of a value held by Optional in the
 resource of the Optional

---
 runtime/src/zserio/Optional.h | 37 ++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index 1211840..22bbb86 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -184,9 +184,10 @@ public:
     template <typename... ARGS, typename TT = T,
             std::enable_if_t<!detail::is_optional_heap_allocated_v<TT>>* = nullptr>
     constexpr BasicOptional(std::in_place_t, const ALLOC& allocator, ARGS&&... args) :
-            AllocatorHolder<ALLOC>(allocator),
-            m_data(std::in_place, std::forward<ARGS>(args)...)
-    {}
+            AllocatorHolder<ALLOC>(allocator)
+    {
+        emplaceInPlace(std::forward<ARGS>(args)...);
+    }
 
     /**
      * Constructor which constructs the value.
@@ -547,7 +548,7 @@ public:
         }
         else
         {
-            return m_data.emplace(std::forward<ARGS>(args)...);
+            return emplaceInPlace(std::forward<ARGS>(args)...);
         }
     }
 
@@ -732,6 +733,28 @@ private:
     template <typename A, typename U>
     friend class BasicOptional;
 
+    // allocator-aware values stored in place get the allocator as well, std::optional does not support allocators
+    template <typename... ARGS>
+    T& emplaceInPlace(ARGS&&... args)
+    {
+        if constexpr (!std::uses_allocator_v<T, ALLOC>)
+        {
+            return m_data.emplace(std::forward<ARGS>(args)...);
+        }
+        else if constexpr (std::is_constructible_v<T, std::allocator_arg_t, const ALLOC&, ARGS...>)
+        {
+            return m_data.emplace(std::allocator_arg, get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        else if constexpr (std::is_constructible_v<T, ARGS..., const ALLOC&>)
+        {
+            return m_data.emplace(std::forward<ARGS>(args)..., get_allocator_ref());
+        }
+        else
+        {
+            return m_data.emplace(std::forward<ARGS>(args)...);
+        }
+    }
+
     template <typename... ARGS>
     T* allocateValue(ARGS&&... args)
     {
@@ -810,7 +833,7 @@ private:
             else // not on heap
             {
                 auto& value = other.m_data.value();
-                m_data.emplace(std::move(value));
+                emplaceInPlace(std::move(value));
             }
         }
     }
@@ -842,12 +865,12 @@ private:
             else if constexpr (detail::is_optional_heap_allocated_v<U>) // only U is on heap
             {
                 auto& value = *other.m_data.value();
-                m_data.emplace(std::move(value));
+                emplaceInPlace(std::move(value));
             }
             else // both not on heap
             {
                 auto& value = other.m_data.value();
-                m_data.emplace(std::move(value));
+                emplaceInPlace(std::move(value));
             }
         }
     }
-- 
2.43.0


From f17831d23df1796ad96a13be4c9139ad9be44f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 11/32] fix: create instances by reflection in the given
 resource

---
 runtime/src/zserio/ReflectableData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/zserio/ReflectableData.h b/runtime/src/zserio/ReflectableData.h
index 9d915cc..cafdb7c 100644
--- a/runtime/src/zserio/ReflectableData.h
+++ b/runtime/src/zserio/ReflectableData.h
@@ -965,6 +965,8 @@ template <typename T, typename ALLOC = typename T::allocator_type>
 class ReflectableDataOwner : public IBasicReflectableData<ALLOC>
 {
 public:
+    using allocator_type = ALLOC;
+
     ReflectableDataOwner() :
             ReflectableDataOwner(ALLOC())
     {}
-- 
2.43.0


From 112aee5d12d3c966bc0c1bcf1c2e48dd791965a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 12/32] fix: use the given allocator in JSON reader and writer

---
 runtime/src/zserio/DebugStringUtil.h |  2 +-
 runtime/src/zserio/JsonReader.h      | 14 ++++++++------
 runtime/src/zserio/JsonTokenizer.h   |  3 ++-
 runtime/src/zserio/JsonWriter.h      | 20 +++++++++++---------
 4 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index beb6382..31945a0 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -39,7 +39,7 @@ void toJsonStream(
     //         "DebugStringUtil.toJsonStream: "
     //         "Zserio object must have reflections enabled (see zserio option -withReflectionCode)!");
 
-    BasicJsonWriter<ALLOC> jsonWriter(stream, indent);
+    BasicJsonWriter<ALLOC> jsonWriter(stream, indent, allocator);
     BasicWalker<ALLOC> walker(jsonWriter, walkFilter);
     walker.walk(reflectable(object, allocator));
 }
diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index b5114d8..aaccea8 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -4,6 +4,7 @@
 #include <istream>
 #include <limits>
 #include <memory>
+#include <optional>
 #include <string_view>
 
 #include "zserio/AllocatorHolder.h"
@@ -84,7 +85,7 @@ private:
     };
 
     State m_state;
-    Optional<Vector<uint8_t, ALLOC>> m_buffer;
+    std::optional<Vector<uint8_t, ALLOC>> m_buffer;
     Optional<size_t> m_bitSize;
 };
 
@@ -142,7 +143,7 @@ private:
     };
 
     State m_state;
-    Optional<Vector<uint8_t, ALLOC>> m_buffer;
+    std::optional<Vector<uint8_t, ALLOC>> m_buffer;
 };
 
 template <typename ALLOC>
@@ -152,7 +153,8 @@ public:
     using AllocatorHolder<ALLOC>::get_allocator;
 
     explicit CreatorAdapter(const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AllocatorHolder<ALLOC>(allocator),
+            m_keyStack(allocator)
     {}
 
     void setType(const IBasicTypeInfo<ALLOC>& typeInfo);
@@ -177,7 +179,7 @@ private:
     template <typename T>
     void convertValue(T&& value) const;
 
-    Optional<BasicZserioTreeCreator<ALLOC>> m_creator;
+    std::optional<BasicZserioTreeCreator<ALLOC>> m_creator;
     using StringType = BasicString<RebindAlloc<ALLOC, char>>;
     Vector<StringType, RebindAlloc<ALLOC, StringType>> m_keyStack;
     IBasicReflectableDataPtr<ALLOC> m_object;
@@ -254,7 +256,7 @@ BasicAny<ALLOC> BitBufferAdapter<ALLOC>::get() const
         throw CppRuntimeException("JsonReader: Unexpected end in BitBuffer!");
     }
 
-    return BasicAny<ALLOC>(BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value()), get_allocator());
+    return BasicAny<ALLOC>(BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value(), get_allocator()), get_allocator());
 }
 
 template <typename ALLOC>
@@ -496,7 +498,7 @@ void BytesAdapter<ALLOC>::visitValue(std::string_view)
 template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
-    m_creator = BasicZserioTreeCreator<ALLOC>(typeInfo, get_allocator());
+    m_creator.emplace(typeInfo, get_allocator());
 }
 
 template <typename ALLOC>
diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..b68b3a0 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -178,8 +178,9 @@ JsonToken BasicJsonTokenizer<ALLOC>::next()
             return m_token;
         }
 
-        m_content = m_content.substr(m_pos) + newContent;
+        m_content.erase(0, m_pos);
         m_pos = 0;
+        m_content += newContent;
     }
 
     return m_token;
diff --git a/runtime/src/zserio/JsonWriter.h b/runtime/src/zserio/JsonWriter.h
index b32d488..c0e92d2 100644
--- a/runtime/src/zserio/JsonWriter.h
+++ b/runtime/src/zserio/JsonWriter.h
@@ -1,13 +1,14 @@
 #ifndef ZSERIO_JSON_WRITER_H_INC
 #define ZSERIO_JSON_WRITER_H_INC
 
+#include <optional>
 #include <ostream>
 #include <string_view>
+#include <utility>
 
 #include "zserio/AllocatorHolder.h"
 #include "zserio/IWalkObserver.h"
 #include "zserio/JsonEncoder.h"
-#include "zserio/Optional.h"
 #include "zserio/String.h"
 #include "zserio/TypeInfoUtil.h"
 
@@ -156,8 +157,8 @@ public:
             size_t elementIndex) override;
 
 private:
-    BasicJsonWriter(std::ostream& out, Optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent,
-            const ALLOC& allocator = ALLOC());
+    BasicJsonWriter(std::ostream& out, const ALLOC& allocator,
+            std::optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent);
 
     void beginItem();
     void endItem();
@@ -175,7 +176,7 @@ private:
     void writeStringifiedBitmask(const IBasicReflectableDataConstPtr<ALLOC>& reflectable);
 
     std::ostream& m_out;
-    Optional<BasicString<RebindAlloc<ALLOC, char>>> m_indent;
+    std::optional<BasicString<RebindAlloc<ALLOC, char>>> m_indent;
     BasicString<RebindAlloc<ALLOC, char>> m_itemSeparator;
     BasicString<RebindAlloc<ALLOC, char>> m_keySeparator;
     EnumerableFormat m_enumerableFormat = DEFAULT_ENUMERABLE_FORMAT;
@@ -191,7 +192,7 @@ using JsonWriter = BasicJsonWriter<>;
 
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, const ALLOC& allocator) :
-        BasicJsonWriter(out, std::nullopt, allocator)
+        BasicJsonWriter(out, allocator, std::nullopt)
 {}
 
 template <typename ALLOC>
@@ -202,15 +203,16 @@ BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, uint8_t indent, const
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(
         std::ostream& out, const BasicString<RebindAlloc<ALLOC, char>>& indent, const ALLOC& allocator) :
-        BasicJsonWriter(out, Optional<BasicString<RebindAlloc<ALLOC, char>>>(indent), allocator)
+        BasicJsonWriter(out, allocator,
+                std::optional<BasicString<RebindAlloc<ALLOC, char>>>(std::in_place, indent, allocator))
 {}
 
 template <typename ALLOC>
-BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out,
-        Optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent, const ALLOC& allocator) :
+BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, const ALLOC& allocator,
+        std::optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent) :
         AllocatorHolder<ALLOC>(allocator),
         m_out(out),
-        m_indent(optionalIndent),
+        m_indent(std::move(optionalIndent)),
         m_itemSeparator(
                 m_indent.has_value() ? DEFAULT_ITEM_SEPARATOR_WITH_INDENT : DEFAULT_ITEM_SEPARATOR, allocator),
         m_keySeparator(DEFAULT_KEY_SEPARATOR, allocator)
-- 
2.43.0


From 7e4627ebcbd0c0ebf431e019e5f608c0a989dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 13/32] fix: do not return truncated JSON string when memory
 runs out

---
 runtime/src/zserio/DebugStringUtil.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 31945a0..521b4e3 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -50,6 +50,7 @@ BasicString<RebindAlloc<ALLOC, char>> toJsonString(
 {
     auto stream = std::basic_ostringstream<char, std::char_traits<char>, RebindAlloc<ALLOC, char>>(
             BasicString<RebindAlloc<ALLOC, char>>(allocator));
+    stream.exceptions(std::ios_base::badbit); // string which cannot grow must not end up truncated
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
     return stream.str();
 }
-- 
2.43.0


From 20e96851a1621ab006313376fd4871f3eb858b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 14/32] fix: JsonTokenizer does not lose a value at the end of
 the stream which follows whitespace-ended chunk

---
 runtime/src/zserio/JsonTokenizer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index b68b3a0..f8a9fa6 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -235,7 +235,9 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
-            return false; // we are at the end of chunk => read more
+            // we are at the end of chunk => read more (unfinished value, previous token is not valid anymore)
+            setToken(JsonToken::UNKNOWN);
+            return false;
         }
 
         setTokenValue();
-- 
2.43.0


From 86026f464043aeafcacb0c4901a68ed255f9cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 15/32] fix: JsonReader does not return the previous object
 when there is nothing to read

---
 runtime/src/zserio/JsonReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index aaccea8..9805bd7 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -498,6 +498,10 @@ void BytesAdapter<ALLOC>::visitValue(std::string_view)
 template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
+    // forget everything left over from the previous (possibly failed) read
+    m_object.reset();
+    m_objectValueAdapter.reset();
+    m_keyStack.clear();
     m_creator.emplace(typeInfo, get_allocator());
 }
 
-- 
2.43.0


From d7da60599e0ae93a541270f1ece1cf8120193d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 16/32] fix: JsonWriter starts each root with clean state even
 after an interrupted walk

---
 runtime/src/zserio/JsonWriter.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/zserio/JsonWriter.h b/runtime/src/zserio/JsonWriter.h
index c0e92d2..b042cd3 100644
--- a/runtime/src/zserio/JsonWriter.h
+++ b/runtime/src/zserio/JsonWriter.h
@@ -239,6 +239,9 @@ void BasicJsonWriter<ALLOC>::setEnumerableFormat(EnumerableFormat enumerableForm
 template <typename ALLOC>
 void BasicJsonWriter<ALLOC>::beginRoot(const IBasicReflectableDataConstPtr<ALLOC>&)
 {
+    // previous walk may have been interrupted by an exception
+    m_isFirst = true;
+    m_level = 0;
     beginObject();
 }
 
-- 
2.43.0


From e3fce1ba04cf2af47620ed5dd3c09fb7c7810da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 17/32] fix: RegexWalkFilter matches also paths of compound
 array elements

---
 runtime/src/zserio/Walker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Walker.h b/runtime/src/zserio/Walker.h
index 073baac..bc63e24 100644
--- a/runtime/src/zserio/Walker.h
+++ b/runtime/src/zserio/Walker.h
@@ -786,9 +786,9 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
-        if (matchSubtree(array->at(i), fieldInfo))
+        if (std::regex_match(getCurrentPath(), m_pathRegex) || matchSubtree(array->at(i), fieldInfo))
         {
-            return true;
+            return true; // the element itself or something within its subtree matches
         }
     }
 
-- 
2.43.0


From d92851b7ad66bb291806ae1da0459a921e1802d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 18/32] fix: conversion of NaN to string does not cast NaN to
 integer

---
 runtime/src/zserio/StringConvertUtil.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..9752c6c 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -2,6 +2,7 @@
 #define ZSERIO_STRING_CONVERT_UTIL_H_INC
 
 #include <array>
+#include <cmath>
 #include <limits>
 #include <sstream>
 #include <string_view>
@@ -120,7 +121,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
         const char*& floatingPartString)
 {
-    if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    if (std::isnan(value))
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
+    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
-- 
2.43.0


From 61a9117fb52348141042dbeee38f880532adc4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 19/32] fix: JsonEncoder does not depend on float format left
 in the stream by an interrupted output

---
 runtime/src/zserio/JsonEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonEncoder.cpp b/runtime/src/zserio/JsonEncoder.cpp
index 033230d..82fe28a 100644
--- a/runtime/src/zserio/JsonEncoder.cpp
+++ b/runtime/src/zserio/JsonEncoder.cpp
@@ -42,7 +42,7 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            stream << std::defaultfloat << std::setprecision(15) << value;
         }
     }
 }
-- 
2.43.0


From df14a8094a78dfba367d32b3d5080fed1e96c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 20/32] fix: BitBuffer rejects bit sizes near the numeric limit
 which overflowed the range check

---
 runtime/src/zserio/BitBuffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 2e0424e..749624f 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -301,7 +301,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -316,7 +316,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0); // (bitSize + 7) could overflow
     if (buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
@@ -335,7 +335,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0); // (bitSize + 7) could overflow
     if (m_buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
@@ -520,7 +520,7 @@ size_t BasicBitBuffer<ALLOC>::getBitSize() const
 template <typename ALLOC>
 size_t BasicBitBuffer<ALLOC>::getByteSize() const
 {
-    return (m_bitSize + 7) / 8;
+    return m_bitSize / 8 + (m_bitSize % 8 != 0 ? 1 : 0);
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 7d53ce9fa4fdfa78d72532ee11b1bf4684ced142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 21/32] fix: BitStreamReader and BitStreamWriter reject bit
 sizes near the numeric limit

---
 runtime/src/zserio/BitStreamReader.cpp | 5 +++--
 runtime/src/zserio/BitStreamWriter.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b75e2a6..c146bb6 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -385,10 +385,11 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t bufferByteSize = bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0); // avoids overflow
+    if (buffer.size() < bufferByteSize)
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << bufferByteSize << "')!";
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index a4876b1..1346d6d 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -339,10 +339,11 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t bufferByteSize = bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0); // avoids overflow
+    if (buffer.size() < bufferByteSize)
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << bufferByteSize << "')!";
     }
 }
 
-- 
2.43.0


From 0b89e863bfbf0a4c4131cc9805549ee43e9f239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 22/32] fix: ZserioTreeCreator stays at its position when
 beginning of an array or compound throws

---
 runtime/src/zserio/ZserioTreeCreator.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9384d00..88266f7 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -615,7 +615,8 @@ void BasicZserioTreeCreator<ALLOC>::beginArray(const BasicString<RebindAlloc<ALL
                 << fieldInfo.schemaName << "' is not an array!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
+    // field info must not be pushed when anything below throws
+    m_fieldInfoStack.reserve(m_fieldInfoStack.size() + 1);
 
     // note that we cannot just call getField() in case that the array is not optional like we do it in
     // setValue() and beginCompound() methods because in case of arrays we would join multiple arrays together
@@ -624,6 +625,7 @@ void BasicZserioTreeCreator<ALLOC>::beginArray(const BasicString<RebindAlloc<ALL
     // moreover we need to properly initialize arrays of dynamic bit fields
     // see https://github.com/ndsev/zserio/issues/414
     m_valueStack.push_back(m_valueStack.back()->createField(name));
+    m_fieldInfoStack.push_back(fieldInfo);
 
     m_state = detail::CreatorState::IN_ARRAY;
 }
@@ -662,7 +664,8 @@ void BasicZserioTreeCreator<ALLOC>::beginCompound(const BasicString<RebindAlloc<
                 << fieldInfo.schemaName << "' is not a compound!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
+    // field info must not be pushed when anything below throws
+    m_fieldInfoStack.reserve(m_fieldInfoStack.size() + 1);
     if (TypeInfoUtil::hasChoice(parentTypeInfo.getCppType()) || fieldInfo.isOptional)
     {
         // optional field, or field within choice or union -> create the new compound
@@ -672,6 +675,7 @@ void BasicZserioTreeCreator<ALLOC>::beginCompound(const BasicString<RebindAlloc<
     {
         m_valueStack.push_back(m_valueStack.back()->getField(name));
     }
+    m_fieldInfoStack.push_back(fieldInfo);
 
     m_state = detail::CreatorState::IN_COMPOUND;
 }
@@ -767,8 +771,17 @@ void BasicZserioTreeCreator<ALLOC>::beginCompoundElement()
     }
 
     auto compoundArray = m_valueStack.back();
-    compoundArray->resize(compoundArray->size() + 1);
-    m_valueStack.push_back(compoundArray->at(compoundArray->size() - 1));
+    const size_t elementIndex = compoundArray->size();
+    compoundArray->resize(elementIndex + 1);
+    try
+    {
+        m_valueStack.push_back(compoundArray->at(elementIndex));
+    }
+    catch (...)
+    {
+        compoundArray->resize(elementIndex); // do not leave an element which has not been begun
+        throw;
+    }
     m_state = detail::CreatorState::IN_COMPOUND;
 }
 
-- 
2.43.0


From 673b11004eb7fe02428859dc5bf16c4c9ed28865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 23/32] fix: ReflectableUtil::equal tells huge floating point
 values apart

The sum of two values above half of the maximum overflows to infinity, so that any two
such values of the same sign were considered equal.
---
 runtime/src/zserio/ReflectableUtil.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index eeecce0..7a1eb3e 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -306,7 +306,10 @@ inline bool ReflectableUtil::doubleValuesAlmostEqual(double lhs, double rhs)
     }
 
     // see: https://en.cppreference.com/w/cpp/types/numeric_limits/epsilon
-    return std::fabs(lhs - rhs) <= std::numeric_limits<double>::epsilon() * std::fabs(lhs + rhs) ||
+    // (halves are used because the sum or the difference of huge values doesn't have to be finite)
+    const double halfDifference = std::fabs(lhs / 2 - rhs / 2);
+    const double halfSum = std::fabs(lhs / 2 + rhs / 2);
+    return halfDifference <= std::numeric_limits<double>::epsilon() * halfSum ||
             std::fabs(lhs - rhs) < std::numeric_limits<double>::min();
 }
 
-- 
2.43.0


From 86007755b8e70e8f0e805cbe6c3f3cb22af5cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 24/32] fix: SqliteUtil accepts dynamic bit integers as columns

The functions were ambiguous or not found because of the order of their parameters, so that
a column of such a type did not compile.
---
 runtime/src/zserio/SqliteUtil.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 542f94f..4e9d4ba 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -25,7 +25,7 @@ template <typename T, typename = void>
 struct ColumnTraits;
 
 template <typename T>
-struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>>>>
+struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>> && !is_numeric_wrapper_v<T>>>
 {
     static constexpr std::string_view TYPE_NAME = "BLOB";
     static constexpr int TYPE = SQLITE_BLOB;
@@ -61,7 +61,7 @@ struct ColumnTraits<BasicString<ALLOC>>
 };
 
 template <typename ALLOC, typename T, typename... ARGS>
-std::enable_if_t<is_complete_v<View<T>>> readColumn(
+std::enable_if_t<is_complete_v<View<T>> && !is_numeric_wrapper_v<T>> readColumn(
         BasicOptional<ALLOC, T>& column, sqlite3_stmt& stmt, int index, const ARGS&... args)
 {
     // blob
@@ -181,7 +181,7 @@ int bindColumn(sqlite3_stmt& stmt, int index, FixedIntWrapper<BIT_SIZE, IS_SIGNE
 }
 
 template <typename ALLOC, typename T>
-int bindColumn(sqlite3_stmt& stmt, DynIntWrapper<T> value, BitSize, int index, const ALLOC&)
+int bindColumn(sqlite3_stmt& stmt, int index, DynIntWrapper<T> value, BitSize, const ALLOC&)
 {
     return sqlite3_bind_int64(&stmt, index, static_cast<int64_t>(value));
 }
-- 
2.43.0


From ea642e9cb2b4957bff39d02f73325c0dfde839b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 25/32] fix: SqliteUtil binds an object of no bits as an empty
 blob and not as NULL

---
 runtime/src/zserio/SqliteUtil.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 4e9d4ba..7d8d45d 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -151,6 +151,10 @@ int bindColumn(sqlite3_stmt& stmt, int index, const View<T>& view, BitSize bitSi
     BasicBitBuffer<ALLOC> bitBuffer(bitSize, allocator);
     BitStreamWriter writer(bitBuffer);
     write(writer, view);
+    if (bitBuffer.getByteSize() == 0)
+    {
+        return sqlite3_bind_zeroblob(&stmt, index, 0); // an empty blob must not become NULL
+    }
     return sqlite3_bind_blob(
             &stmt, index, bitBuffer.getBuffer(), static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
 }
-- 
2.43.0


From 4ab77191aa47464fd93f469a0c8767727f8a0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 26/32] fix: SqliteUtil reads whole texts and reports texts
 which cannot be read

A text was cut at its first zero character. If SQLite runs out of memory while it provides
the text, the null pointer was dereferenced.
---
 runtime/src/zserio/SqliteUtil.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 7d8d45d..764754f 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -6,6 +6,7 @@
 #include "zserio/Optional.h"
 #include "zserio/SerializeUtil.h"
 #include "zserio/Span.h"
+#include "zserio/SqliteException.h"
 #include "zserio/Traits.h"
 
 #include "sqlite3.h"
@@ -129,7 +130,13 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
-    column.emplace(reinterpret_cast<const char*>(textValue));
+    if (textValue == nullptr)
+    {
+        throw SqliteException("SqliteUtil::readColumn(): sqlite3_column_text() failed: ")
+                << SqliteErrorCode(sqlite3_errcode(sqlite3_db_handle(&stmt)));
+    }
+    const size_t textSize = static_cast<size_t>(sqlite3_column_bytes(&stmt, index)); // may contain zeros
+    column.emplace(reinterpret_cast<const char*>(textValue), textSize);
 }
 
 template <typename T>
-- 
2.43.0


From 5110dc5b8fe348ddb5b45fb4935c9aad6dc86644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 27/32] fix: ValidationSqliteUtil reports failures of the
 database

Any failure to decide about a presence of a column was presented as its absence. A name which
SQLite could not provide (out of memory) was dereferenced as a null pointer.
---
 runtime/src/zserio/ValidationSqliteUtil.h | 25 +++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/ValidationSqliteUtil.h b/runtime/src/zserio/ValidationSqliteUtil.h
index 510e195..49fad7a 100644
--- a/runtime/src/zserio/ValidationSqliteUtil.h
+++ b/runtime/src/zserio/ValidationSqliteUtil.h
@@ -98,6 +98,11 @@ struct ValidationSqliteUtil
         {
             const char* columnName = reinterpret_cast<const char*>(sqlite3_column_text(statement.get(), 1));
             const char* columnType = reinterpret_cast<const char*>(sqlite3_column_text(statement.get(), 2));
+            if (columnName == nullptr || columnType == nullptr)
+            {
+                throw SqliteException("ValidationSqliteUtils.getTableSchema: sqlite3_column_text() failed: ")
+                        << SqliteErrorCode(sqlite3_errcode(connection.getConnection()));
+            }
             tableSchema.emplace(StringType(columnName, allocator),
                     ColumnDescription{
                             StringType(columnName, allocator), StringType(columnType, allocator),
@@ -125,6 +130,8 @@ struct ValidationSqliteUtil
      *
      * \return Returns true if the column is present in the table, even if the column is hidden. Otherwise
      *         returns false.
+     *
+     * \throw SqliteException if the database fails so that the presence of the column can't be decided.
      */
     static bool isColumnInTable(SqliteConnection& connection, std::string_view attachedDbName,
             std::string_view tableName, std::string_view columnName, const ALLOC& allocator)
@@ -142,15 +149,29 @@ struct ValidationSqliteUtil
         sqlQuery += tableName;
         sqlQuery += " LIMIT 0";
 
+        Statement statement;
         try
         {
-            Statement statement(connection.prepareStatement(sqlQuery));
-            return sqlite3_step(statement.get()) == SQLITE_DONE;
+            statement.reset(connection.prepareStatement(sqlQuery));
         }
         catch (const SqliteException&)
         {
+            // only a generic error says that there is no such column, all others are failures of the database
+            if ((sqlite3_errcode(connection.getConnection()) & 0xFF) != SQLITE_ERROR)
+            {
+                throw;
+            }
             return false;
         }
+
+        const int result = sqlite3_step(statement.get());
+        if (result != SQLITE_DONE)
+        {
+            throw SqliteException("ValidationSqliteUtils.isColumnInTable: sqlite3_step() failed: ")
+                    << SqliteErrorCode(result);
+        }
+
+        return true;
     }
 
     /**
-- 
2.43.0


From 2afa09b2dbe7bf94cbd9671c2bf82438b5e83713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 28/32] fix: SqliteConnection::startTransaction does not crash
 on an unset connection

---
 runtime/src/zserio/SqliteConnection.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteConnection.h b/runtime/src/zserio/SqliteConnection.h
index e44dd9b..595257c 100644
--- a/runtime/src/zserio/SqliteConnection.h
+++ b/runtime/src/zserio/SqliteConnection.h
@@ -186,7 +186,8 @@ inline sqlite3_stmt* SqliteConnection::prepareStatement(std::string_view sqlQuer
 inline bool SqliteConnection::startTransaction()
 {
     bool wasTransactionStarted = false;
-    if (sqlite3_get_autocommit(m_connection) != 0)
+    // an unset connection is reported by executeUpdate
+    if (m_connection == nullptr || sqlite3_get_autocommit(m_connection) != 0)
     {
         executeUpdate("BEGIN;");
         wasTransactionStarted = true;
-- 
2.43.0


From 6c8e917cd8195de21c752d995a9e00a88ad39ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 29/32] fix: copied or moved service data does not refer to the
 object of the original

---
 runtime/src/zserio/IService.h | 62 +++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/runtime/src/zserio/IService.h b/runtime/src/zserio/IService.h
index ca7130a..1896bf3 100644
--- a/runtime/src/zserio/IService.h
+++ b/runtime/src/zserio/IService.h
@@ -78,6 +78,68 @@ public:
             m_data(allocator)
     {}
 
+    /** Default destructor. */
+    ~BasicIntrospectableServiceData() override = default;
+
+    /**
+     * Copy constructor. The introspectable view is always created on the own object.
+     *
+     * \param other Service data to copy.
+     */
+    BasicIntrospectableServiceData(const BasicIntrospectableServiceData& other) :
+            IBasicServiceData<ALLOC>(other),
+            m_object(other.m_object),
+            m_introspectable(introspectable(View(m_object), other.m_data.get_allocator())),
+            m_data(other.m_data)
+    {}
+
+    /**
+     * Move constructor. The introspectable view is always created on the own object.
+     *
+     * \param other Service data to move.
+     */
+    BasicIntrospectableServiceData(BasicIntrospectableServiceData&& other) :
+            m_object(std::move(other.m_object)),
+            m_introspectable(introspectable(View(m_object), other.m_data.get_allocator())),
+            m_data(std::move(other.m_data))
+    {}
+
+    /**
+     * Copy assignment operator. The introspectable view stays on the own object.
+     *
+     * \param other Service data to copy.
+     *
+     * \return Reference to this.
+     */
+    BasicIntrospectableServiceData& operator=(const BasicIntrospectableServiceData& other)
+    {
+        if (this != &other)
+        {
+            m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator()); // don't keep data of the replaced object
+            m_object = other.m_object;
+            m_data = other.m_data;
+        }
+        return *this;
+    }
+
+    /**
+     * Move assignment operator. The introspectable view stays on the own object.
+     *
+     * \param other Service data to move.
+     *
+     * \return Reference to this.
+     */
+    BasicIntrospectableServiceData& operator=(BasicIntrospectableServiceData&& other)
+    {
+        if (this != &other)
+        {
+            m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator()); // don't keep data of the replaced object
+            m_object = std::move(other.m_object);
+            m_data = std::move(other.m_data);
+        }
+        return *this;
+    }
+
     IBasicIntrospectableViewConstPtr<ALLOC> getIntrospectable() const override
     {
         return m_introspectable;
-- 
2.43.0


From e3ca0b0a6954115a08cccdb9feadaccb1d363275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 30/32] fix: floating point numbers in error messages keep the
 leading zeros of the fraction and the sign of small numbers

---
 runtime/src/zserio/StringConvertUtil.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 9752c6c..7f1e117 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -143,7 +143,19 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
         integerPartString = convertIntToString(integerPartBuffer, integerPart);
-        floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        if (integerPart == 0 && floatingPart < 0)
+        {
+            integerPartString = "-0"; // the sign would be lost
+        }
+        if (floatingPartAbs > 0 && floatingPartAbs < 100)
+        {
+            // keep leading zeros
+            floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs + 1000) + 1;
+        }
+        else
+        {
+            floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        }
     }
 }
 
-- 
2.43.0


From 630f6ed899e98c3654d3f105da72ca0354e0d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 31/32] fix: offset initialisation of bit buffer views calls a
 function which exists

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 749624f..c557c1a 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -666,7 +666,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From 4f888745d4f6ae4839181b0ee357ce701b8398e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 32/32] fix: null element of an array in JSON or tree creator
 is an error instead of a null pointer dereference

---
 runtime/src/zserio/ZserioTreeCreator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 88266f7..b9196a9 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -814,7 +814,15 @@ void BasicZserioTreeCreator<ALLOC>::addValueElement(T&& value)
     }
 
     const BasicFieldInfo<ALLOC>& fieldInfo = m_fieldInfoStack.back();
-    m_valueStack.back()->append(makeAnyValue(fieldInfo.typeInfo, std::forward<T>(value)));
+    if constexpr (std::is_null_pointer_v<std::decay_t<T>>)
+    {
+        throw CppRuntimeException("ZserioTreeCreator: Cannot add null value to array '")
+                << fieldInfo.schemaName << "'!";
+    }
+    else
+    {
+        m_valueStack.back()->append(makeAnyValue(fieldInfo.typeInfo, std::forward<T>(value)));
+    }
 }
 
 template <typename ALLOC>
-- 
2.43.0

