From 5cdad7734ae27d97906c19f304702dc2adc8285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 01/26] fix: keep the reader state unchanged when a read hits
 the end of the stream

---
 runtime/src/zserio/BitStreamReader.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..8c6c1fa 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -222,18 +222,18 @@ inline void checkNumBits64(uint8_t numBits)
     }
 }
 
-/** Optimization which increases chances to inline loadCacheNext. */
+/** Optimization which increases chances to inline readUnsignedBitsImpl. */
 inline void throwEof()
 {
     throw CppRuntimeException("BitStreamReader: Reached eof(), reading from stream failed!");
 }
 
 /** Loads next 32/64 bits to 32/64 bit-cache. */
-inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
+inline void loadCacheNext(ReaderContext& ctx)
 {
     static const uint8_t cacheBitSize = sizeof(BaseType) * 8;
 
-    // ctx.bitIndex is always byte aligned and ctx.cacheNumBits is always zero in this call
+    // ctx.bitIndex is always byte aligned and all requested bits are available in this call
     const size_t byteIndex = ctx.bitIndex >> 3U;
     if (ctx.bufferBitSize >= ctx.bitIndex + cacheBitSize)
     {
@@ -247,11 +247,6 @@ inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
     }
     else
     {
-        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
-        {
-            throwEof();
-        }
-
         ctx.cacheNumBits = static_cast<uint8_t>(ctx.bufferBitSize - ctx.bitIndex);
 
         // buffer must be always available in full bytes, even if some last bits are not used
@@ -297,13 +292,19 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
     BaseType value = 0;
     if (ctx.cacheNumBits < numBits)
     {
+        // check the whole read before anything is consumed, a failed read must not change the reader state
+        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
+        {
+            throwEof();
+        }
+
         // read all remaining cache bits
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
 
         // load next piece of buffer into cache
-        loadCacheNext(ctx, numBits);
+        loadCacheNext(ctx);
 
         // add the remaining bits to the result
         // if numBits is sizeof(BaseType) * 8 here, value is already 0 (see MASK_TABLE[0])
-- 
2.43.0


From f1a3081320f403e3973d994cd34a219e93ad4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 02/26] fix: reject varsize values which do not fit to 32 bits
 instead of truncating them

---
 runtime/src/zserio/BitStreamReader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 8c6c1fa..d22374e 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -810,14 +810,16 @@ VarSize BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // 5 bytes can hold up to 36 bits
+    const uint64_t longResult = static_cast<uint64_t>(result) << 8U |
+            static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
+    if (longResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << longResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(longResult);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From 4030fad8d61edf577a6d5e5bd168be9ece4c0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 03/26] fix: check the bit size of reader and writer buffers
 without overflow

---
 runtime/src/zserio/BitStreamReader.cpp | 5 +++--
 runtime/src/zserio/BitStreamWriter.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index d22374e..9dca023 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -385,10 +385,11 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t bufferByteSize = bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0);
+    if (buffer.size() < bufferByteSize)
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << bufferByteSize << "')!";
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..52a4dfe 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -339,10 +339,11 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t bufferByteSize = bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0);
+    if (buffer.size() < bufferByteSize)
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << bufferByteSize << "')!";
     }
 }
 
-- 
2.43.0


From 296db9cf5a475f3805393ba9a36574917de218db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 04/26] fix: support alignments which need to skip more than 64
 bits

---
 runtime/src/zserio/BitStreamReader.cpp |  3 +--
 runtime/src/zserio/BitStreamWriter.cpp | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 9dca023..543a6ec 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -869,8 +869,7 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        setBitPosition(getBitPosition() + (alignment - offset));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 52a4dfe..7dd9cfd 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -534,8 +534,19 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        BitPosType skip = alignment - offset;
+        if (!hasWriteBuffer())
+        {
+            m_bitIndex += skip;
+            return;
+        }
+
+        checkCapacity(m_bitIndex + skip);
+        for (; skip > 64; skip -= 64)
+        {
+            writeUnsignedBits64(0, 64);
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From e98f1a3795276890bac8ef77afe200935693df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 05/26] fix: calculate the absolute value of minimal signed
 varints without signed overflow

---
 runtime/src/zserio/Types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Types.cpp b/runtime/src/zserio/Types.cpp
index 573783d..d9557b3 100644
--- a/runtime/src/zserio/Types.cpp
+++ b/runtime/src/zserio/Types.cpp
@@ -112,7 +112,9 @@ static BitSize bitSizeOfVarIntImpl(
 template <typename T>
 static uint64_t convertToAbsValue(typename T::ValueType value)
 {
-    return static_cast<uint64_t>((value < 0) ? -value : value);
+    // negated as unsigned because the absolute value of the minimum does not fit to the value type
+    const uint64_t absValue = static_cast<uint64_t>(static_cast<int64_t>(value));
+    return (value < 0) ? (UINT64_C(0) - absValue) : absValue;
 }
 
 BitSize bitSizeOf(VarInt16 value, BitSize)
-- 
2.43.0


From fdb15882aa67722ca62d72bbed1859f01c8f99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 06/26] fix: keep NaN and finite overflow apart when converting
 to 16-bit float

---
 runtime/src/zserio/FloatUtil.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..0d94a8d 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -9,6 +9,8 @@ static constexpr uint16_t FLOAT16_SIGN_MASK = UINT16_C(0x8000);
 static constexpr uint16_t FLOAT16_EXPONENT_MASK = UINT16_C(0x7C00);
 static constexpr uint16_t FLOAT16_SIGNIFICAND_MASK = UINT16_C(0x03FF);
 
+static constexpr uint16_t FLOAT16_QUIET_NAN_MASK = UINT16_C(0x0200);
+
 static constexpr uint16_t FLOAT16_SIGN_BIT_POSITION = UINT16_C(15);
 static constexpr uint16_t FLOAT16_EXPONENT_BIT_POSITION = UINT16_C(10);
 
@@ -108,16 +110,22 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // NaN must not become infinity when its significand does not fit, make it quiet NaN
+            significand16 = FLOAT16_QUIET_NAN_MASK;
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
-- 
2.43.0


From 25d006334778a06cc2976ae06c7239ae7009f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 07/26] fix: make initializeOffsets of bit buffers compile

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..d72cc22 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -591,7 +591,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From 7877eb52b6279450be91c6e71e2da798cf0b69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 08/26] fix: order bit buffers which differ only in the bit
 size

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index d72cc22..6b503cb 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -407,7 +407,7 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    return m_bitSize < other.m_bitSize;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From f31edf04d0510cef124bba661fbe420041e3d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 09/26] fix: position the writer behind long bytes and strings
 without 32-bit overflow

---
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 7dd9cfd..315319b 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -485,7 +485,7 @@ void BitStreamWriter::writeBytes(BytesView data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.end(), m_buffer.begin() + beginBitPosition / 8);
@@ -511,7 +511,7 @@ void BitStreamWriter::writeString(std::string_view data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.begin() + len, m_buffer.data() + beginBitPosition / 8);
-- 
2.43.0


From ce4442e52272dffcfad7e6e1f1786edd266b5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 10/26] fix: check the bit size of bit buffers without overflow

---
 runtime/src/zserio/BitBuffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 6b503cb..499457f 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -278,7 +278,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -293,7 +293,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0);
     if (buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
@@ -312,7 +312,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0);
     if (m_buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
-- 
2.43.0


From cb8c3e4d71fa0864f8b847c535bffee5c3b3089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 11/26] fix: leave moved-from bit buffers empty instead of with
 a stale bit size

---
 runtime/src/zserio/BitBuffer.h | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 499457f..7656a81 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -6,6 +6,7 @@
 #include <functional>
 #include <string_view>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "zserio/BitSize.h"
@@ -126,9 +127,17 @@ public:
 
     BasicBitBuffer(const BasicBitBuffer&) = default;
     BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
+    /**
+     * \}
+     */
 
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
+    /**
+     * Move constructor and assignment. The moved-from bit buffer is left empty.
+     * \{
+     */
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value);
     /**
      * \}
      */
@@ -329,9 +338,28 @@ inline BasicBitBuffer<ALLOC>::BasicBitBuffer(const BasicBitBuffer& other, const
 template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
-        m_bitSize(other.m_bitSize)
+        m_bitSize(std::exchange(other.m_bitSize, 0))
+{}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(std::exchange(other.m_bitSize, 0))
 {}
 
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value)
+{
+    if (this != &other)
+    {
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = std::exchange(other.m_bitSize, 0);
+    }
+
+    return *this;
+}
+
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
 {
-- 
2.43.0


From 2b1db2151767fceaca61222693b3e18c9ff09b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 12/26] fix: keep assigned values which are a part of the
 current optional value alive

---
 runtime/src/zserio/Optional.h | 40 +++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..053cfb2 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -294,12 +294,20 @@ public:
     {
         if (this != &other)
         {
-            clear();
+            // other can be a part of the current value, so it must be copied before the current value is destroyed
             if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
             {
+                BasicOptional copied(other, other.get_allocator_ref());
+                clear();
                 set_allocator(other.get_allocator_ref());
+                move(std::move(copied));
+            }
+            else
+            {
+                BasicOptional copied(other, get_allocator_ref());
+                clear();
+                move(std::move(copied));
             }
-            copy(other);
         }
 
         return *this;
@@ -350,7 +358,16 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
-        emplace(std::forward<U>(value));
+        if constexpr (detail::is_optional_heap_allocated_v<T>)
+        {
+            emplace(std::forward<U>(value));
+        }
+        else
+        {
+            // value can be a part of the current value which gets destroyed by emplace
+            T newValue(std::forward<U>(value));
+            emplace(std::move(newValue));
+        }
         return *this;
     }
 
@@ -392,12 +409,20 @@ public:
     {
         if (this != &other)
         {
-            clear();
+            // other can be a part of the current value, so it must be moved before the current value is destroyed
             if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
             {
-                set_allocator(std::move(other.get_allocator_ref()));
+                BasicOptional moved(std::move(other));
+                clear();
+                set_allocator(moved.get_allocator_ref());
+                move(std::move(moved));
+            }
+            else
+            {
+                BasicOptional moved(std::move(other), get_allocator_ref());
+                clear();
+                move(std::move(moved));
             }
-            move(std::move(other));
         }
 
         return *this;
@@ -514,10 +539,11 @@ public:
     template <typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        clear();
         if constexpr (detail::is_optional_heap_allocated_v<T>)
         {
+            // arguments can refer to the current value, so the new value must be created before it is destroyed
             T* ptr = allocateValue(std::forward<ARGS>(args)...);
+            clear();
             return *m_data.emplace(ptr);
         }
         else
-- 
2.43.0


From 0921ecbf5da10aa7add1c2a0c2e317ab7f27aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 13/26] fix: keep any consistent when copying or constructing a
 value throws or refers to the current value

---
 runtime/src/zserio/Any.h | 81 +++++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..cdd8a28 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -186,7 +186,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +206,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -321,9 +337,8 @@ public:
                             !std::is_same<typename std::decay<T>::type, ALLOC>::value,
                     int>::type = 0>
     explicit BasicAny(T&& value, const ALLOC& allocator = ALLOC()) :
-            AllocatorHolder<ALLOC>(allocator)
+            BasicAny(allocator)
     {
-        m_untypedHolder.heap = nullptr;
         set(std::forward<T>(value));
     }
 
@@ -486,7 +501,19 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        using U = typename std::decay<T>::type;
+        if (isType<U>())
+        {
+            getHolder<U>(detail::has_non_heap_holder<U, ALLOC>())->set(std::forward<T>(value));
+        }
+        else
+        {
+            // value can be a part of the current value, so it must be stored before the current value is destroyed
+            BasicAny newAny(get_allocator_ref());
+            newAny.template createHolder<U>()->set(std::forward<T>(value));
+            clearHolder();
+            move(std::move(newAny));
+        }
     }
 
     /**
@@ -497,8 +524,27 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        using U = typename std::decay<T>::type;
+        if (isType<U>())
+        {
+            try
+            {
+                return getHolder<U>(detail::has_non_heap_holder<U, ALLOC>())
+                        ->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+            }
+            catch (...)
+            {
+                // don't keep the holder without any value
+                clearHolder();
+                throw;
+            }
+        }
+
+        BasicAny newAny(get_allocator_ref());
+        newAny.template createHolder<U>()->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        clearHolder();
+        move(std::move(newAny));
+        return getHolder<U>(detail::has_non_heap_holder<U, ALLOC>())->get();
     }
 
     /**
@@ -601,7 +647,16 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                // the storage is shared with the pointer to heap
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -661,16 +716,6 @@ private:
     template <typename T>
     detail::HolderBase<T, ALLOC>* createHolder()
     {
-        if (hasHolder())
-        {
-            if (getUntypedHolder()->isType(detail::TypeIdHolder::get<T>()))
-            {
-                return getHolder<T>(detail::has_non_heap_holder<T, ALLOC>());
-            }
-
-            clearHolder();
-        }
-
         return createHolderImpl<T>(detail::has_non_heap_holder<T, ALLOC>());
     }
 
-- 
2.43.0


From 9ac003d57593358200dc1f6e9fde0039669a9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 14/26] fix: swap allocators together with the values they have
 allocated

---
 runtime/src/zserio/Any.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index cdd8a28..090361f 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -471,17 +471,20 @@ public:
         {
             std::swap(m_untypedHolder.heap, other.m_untypedHolder.heap);
         }
+        else if constexpr (AllocTraits::propagate_on_container_swap::value)
+        {
+            // each value must stay with the allocator which has allocated it
+            BasicAny tmp(std::move(*this));
+            set_allocator(other.get_allocator_ref());
+            move(std::move(other));
+            other.set_allocator(tmp.get_allocator_ref());
+            other.move(std::move(tmp));
+        }
         else
         {
             BasicAny tmp(std::move(*this), get_allocator_ref());
             move(std::move(other));
             other.move(std::move(tmp));
-
-            if constexpr (AllocTraits::propagate_on_container_swap::value)
-            {
-                using std::swap;
-                swap(get_allocator_ref(), other.get_allocator_ref());
-            }
         }
     }
 
-- 
2.43.0


From f6e5f8065600360613e4c7e054dcbac5bd0d9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 15/26] fix: treat valueless variants as equal

---
 runtime/src/zserio/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..ce608ee 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -424,7 +424,7 @@ public:
             return false;
         }
 
-        bool ret = false;
+        bool ret = valueless_by_exception(); // two valueless variants are equal
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
             ret = elem1 == elem2;
         });
-- 
2.43.0


From 83ac43be4468ac3517d37bb10f078cd09d29386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 16/26] fix: give equal floating point zeros equal hash codes

---
 runtime/src/zserio/HashCodeUtil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/HashCodeUtil.h b/runtime/src/zserio/HashCodeUtil.h
index 54726af..0e26272 100644
--- a/runtime/src/zserio/HashCodeUtil.h
+++ b/runtime/src/zserio/HashCodeUtil.h
@@ -75,7 +75,7 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    return calcHashCode(seedValue, convertFloatToUInt32(value == 0.0F ? 0.0F : value)); // -0.0 is equal to 0.0
 }
 
 /**
@@ -88,7 +88,7 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    return calcHashCode(seedValue, convertDoubleToUInt64(value == 0.0 ? 0.0 : value)); // -0.0 is equal to 0.0
 }
 
 /**
-- 
2.43.0


From 60e12a8cf924b0973350f89270a48c392732a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 17/26] fix: keep assigned values which are a part of the
 current any or variant value alive

---
 runtime/src/zserio/Any.h     | 28 ++++++++++++++++++++++------
 runtime/src/zserio/Variant.h |  6 ++++--
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 090361f..f1a2996 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -386,12 +386,20 @@ public:
         if (this != &other)
         {
             // TODO: do not dealloc unless necessary
-            clearHolder();
+            // other can be a part of the current value, so it must be copied before the current value is destroyed
             if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
             {
-                set_allocator(other.get_allocator_ref());
+                BasicAny copied(other, other.get_allocator_ref());
+                clearHolder();
+                set_allocator(copied.get_allocator_ref());
+                move(std::move(copied));
+            }
+            else
+            {
+                BasicAny copied(other, get_allocator_ref());
+                clearHolder();
+                move(std::move(copied));
             }
-            copy(other);
         }
 
         return *this;
@@ -431,12 +439,20 @@ public:
     {
         if (this != &other)
         {
-            clearHolder();
+            // other can be a part of the current value, so it must be moved before the current value is destroyed
             if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
             {
-                set_allocator(std::move(other.get_allocator_ref()));
+                BasicAny moved(std::move(other));
+                clearHolder();
+                set_allocator(moved.get_allocator_ref());
+                move(std::move(moved));
+            }
+            else
+            {
+                BasicAny moved(std::move(other), get_allocator_ref());
+                clearHolder();
+                move(std::move(moved));
             }
-            move(std::move(other));
         }
 
         return *this;
diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index ce608ee..e357f36 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -191,8 +191,9 @@ public:
      */
     BasicVariant& operator=(const BasicVariant& other)
     {
+        const INDEX newIndex = other.m_index; // other can be a part of the current value
         m_data = other.m_data;
-        m_index = other.m_index;
+        m_index = newIndex;
         return *this;
     }
 
@@ -237,8 +238,9 @@ public:
     {
         if (this != &other)
         {
+            const INDEX newIndex = other.m_index; // other can be a part of the current value
             m_data = std::move(other.m_data);
-            m_index = other.m_index;
+            m_index = newIndex;
         }
 
         return *this;
-- 
2.43.0


From d80c291a13a0355b5aee4abb28ad5399b42eebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 18/26] fix: make offset initialization of dynamic width
 integer arrays compile

---
 runtime/src/zserio/DeltaContext.h | 6 ++++++
 runtime/src/zserio/View.h         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 130c222..479a5b2 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -441,6 +441,12 @@ BitSize bitSizeOf(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSi
     return deltaContext.bitSizeOf(view);
 }
 
+template <typename T>
+BitSize initializeOffsets(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSize bitPosition)
+{
+    return bitSizeOf(deltaContext, view, bitPosition);
+}
+
 template <typename T>
 void write(DeltaContext& deltaContext, BitStreamWriter& writer, View<DynIntWrapper<T>> view)
 {
diff --git a/runtime/src/zserio/View.h b/runtime/src/zserio/View.h
index 45a5103..488b73b 100644
--- a/runtime/src/zserio/View.h
+++ b/runtime/src/zserio/View.h
@@ -240,6 +240,12 @@ BitSize bitSizeOf(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize =
     return view.numBits();
 }
 
+template <typename VALUE_TYPE>
+BitSize initializeOffsets(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize bitPosition)
+{
+    return bitSizeOf(view, bitPosition);
+}
+
 template <typename VALUE_TYPE>
 void write(BitStreamWriter& writer, const View<detail::DynIntWrapper<VALUE_TYPE>>& view)
 {
-- 
2.43.0


From 7ba9cb2fb6983947392568705d6ebe3c63aef0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 19/26] fix: write arrays of floating point numbers which are
 marked as packed unpacked

---
 runtime/src/zserio/ArrayTraits.h  | 16 ++++++++++++++--
 runtime/src/zserio/DeltaContext.h |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/ArrayTraits.h b/runtime/src/zserio/ArrayTraits.h
index 733737b..5ec36ec 100644
--- a/runtime/src/zserio/ArrayTraits.h
+++ b/runtime/src/zserio/ArrayTraits.h
@@ -58,8 +58,20 @@ struct is_packable : std::false_type
 {};
 
 template <typename T>
-struct is_packable<T, std::enable_if_t<is_numeric_wrapper_v<T> || is_bitmask_v<T> || std::is_enum_v<T>>>
-        : std::true_type
+struct is_float_wrapper : std::false_type
+{};
+
+template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
+struct is_float_wrapper<FloatWrapper<VALUE_TYPE, FLOAT_TYPE>> : std::true_type
+{};
+
+template <typename T>
+inline constexpr bool is_float_wrapper_v = is_float_wrapper<std::remove_cv_t<T>>::value;
+
+template <typename T>
+struct is_packable<T,
+        std::enable_if_t<(is_numeric_wrapper_v<T> && !is_float_wrapper_v<T>) || is_bitmask_v<T> ||
+                std::is_enum_v<T>>> : std::true_type
 {};
 
 template <typename T>
diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 479a5b2..913bbc3 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -496,7 +496,7 @@ BitSize bitSizeOf(DeltaContext&, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value, Bit
 }
 
 template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
-void write(DeltaContext&, BitStreamReader& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
+void write(DeltaContext&, BitStreamWriter& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
 {
     write(writer, value);
 }
-- 
2.43.0


From 4e36c63aec45908bb1df051467d8b340d6578395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 20/26] fix: keep the writer state unchanged when a write of
 more than 32 bits does not fit

---
 runtime/src/zserio/BitStreamWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 315319b..aa3de36 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -615,6 +615,11 @@ inline void BitStreamWriter::writeUnsignedBits64Impl(uint64_t data, uint8_t numB
     }
     else
     {
+        if (hasWriteBuffer())
+        {
+            // check the whole write before anything is written, a failed write must not change the writer state
+            checkCapacity(m_bitIndex + numBits);
+        }
         writeUnsignedBits32Impl(static_cast<uint32_t>(data >> 32U), static_cast<uint8_t>(numBits - 32));
         writeUnsignedBits32Impl(static_cast<uint32_t>(data), 32);
     }
-- 
2.43.0


From 89a36134674fb20f55851b4c0a4fe04b155865d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 21/26] fix: reject array lengths whose size in bits or bytes
 does not fit into 64 bits

---
 runtime/src/zserio/ArrayView.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index a0b0405..934123f 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -603,15 +603,14 @@ void read(BitStreamReader& reader, Vector<T, ALLOC>& rawArray, detail::array_own
     if constexpr (std::is_base_of_v<NumericArrayTraits<T>, ARRAY_TRAITS>)
     {
         const size_t elementSize = ARRAY_TRAITS::bitSizeOf();
-        if (reader.getBitPosition() + readLength * static_cast<uint64_t>(elementSize) >
-                reader.getBufferBitSize())
+        if (readLength > (reader.getBufferBitSize() - reader.getBitPosition()) / elementSize)
         {
             throw CppRuntimeException("ArrayView: Array size exceeds available buffer!");
         }
     }
 
     size_t reserve = readLength;
-    if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+    if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
     {
         reserve = reader.getMaxArrayPreallocation() / sizeof(T);
     }
@@ -824,7 +823,7 @@ void readPacked(BitStreamReader& reader, Vector<T, ALLOC>& rawArray,
         rawArray.clear();
 
         size_t reserve = readLength;
-        if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+        if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
         {
             reserve = reader.getMaxArrayPreallocation() / sizeof(T);
         }
-- 
2.43.0


From d2a51108d098d054c857afce62aff9df122598f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 22/26] fix: text of single precision numbers with leading
 zeros, lost sign and NaN

---
 runtime/src/zserio/StringConvertUtil.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..f86acff 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -1,7 +1,9 @@
 #ifndef ZSERIO_STRING_CONVERT_UTIL_H_INC
 #define ZSERIO_STRING_CONVERT_UTIL_H_INC
 
+#include <algorithm>
 #include <array>
+#include <cmath>
 #include <limits>
 #include <sstream>
 #include <string_view>
@@ -120,7 +122,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
         const char*& floatingPartString)
 {
-    if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    if (std::isnan(value))
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
+    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
@@ -136,8 +143,17 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         const int64_t floatingPart =
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = convertIntToString(integerPartBuffer, integerPart);
+        integerPartString = (integerPart == 0 && floatingPart < 0)
+                ? "-0" // integer zero would lose the sign
+                : convertIntToString(integerPartBuffer, integerPart);
         floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        if (floatingPartAbs > 0 && floatingPartAbs < 100)
+        {
+            // add leading zeros, the buffer is long enough and filled from behind
+            char* paddedBegin = floatingPartBuffer.data() + floatingPartBuffer.size() - 4;
+            (void)std::fill(paddedBegin, paddedBegin + ((floatingPartAbs < 10) ? 2 : 1), '0');
+            floatingPartString = paddedBegin;
+        }
     }
 }
 
-- 
2.43.0


From a29d583dddd7e15028a56d5b28ccb587c8aa22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 23/26] fix: use the copied allocator when an optional is
 assigned from a part of its own value

---
 runtime/src/zserio/Optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index 053cfb2..875e771 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -299,7 +299,7 @@ public:
             {
                 BasicOptional copied(other, other.get_allocator_ref());
                 clear();
-                set_allocator(other.get_allocator_ref());
+                set_allocator(copied.get_allocator_ref());
                 move(std::move(copied));
             }
             else
-- 
2.43.0


From 6ebf9521a6d060da1de167c819ab37bd80d57ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 24/26] fix: decode JSON numbers only from the given view

---
 runtime/src/zserio/JsonDecoder.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..c741e1e 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -149,8 +149,8 @@ private:
     static int32_t decodeHex(char character);
     size_t checkNumber(std::string_view input, bool& isDouble, bool& isSigned);
     DecoderResult decodeNumber(std::string_view input);
-    DecoderResult decodeSigned(std::string_view input);
-    DecoderResult decodeUnsigned(std::string_view input);
+    DecoderResult decodeSigned(std::string_view input, size_t numChars);
+    DecoderResult decodeUnsigned(std::string_view input, size_t numChars);
     DecoderResult decodeDouble(std::string_view input, size_t numChars);
 };
 
@@ -404,18 +404,21 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
     }
     else if (isSigned)
     {
-        return decodeSigned(input);
+        return decodeSigned(input, numChars);
     }
     else
     {
-        return decodeUnsigned(input);
+        return decodeUnsigned(input, numChars);
     }
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(
+        std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
+    // the input is not necessarily terminated after the number
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.substr(0, numChars), get_allocator());
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     errno = 0; // no library function sets its value back to zero once changed
     const int64_t value = std::strtoll(pBegin, &pEnd, 10);
@@ -427,9 +430,12 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeS
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(
+        std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
+    // the input is not necessarily terminated after the number
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.substr(0, numChars), get_allocator());
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     errno = 0; // no library function sets its value back to zero once changed
     const uint64_t value = std::strtoull(pBegin, &pEnd, 10);
@@ -444,7 +450,9 @@ template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
         std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
+    // the input is not necessarily terminated after the number
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.substr(0, numChars), get_allocator());
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     const double value = std::strtod(pBegin, &pEnd);
     if (static_cast<size_t>(pEnd - pBegin) != numChars)
-- 
2.43.0


From 8a6afe5dca582dc8f4e09f5f21a10aa6bdd0acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 25/26] fix: keep the allocator of the JSON tokenizer when more
 content is read

---
 runtime/src/zserio/JsonTokenizer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..07dd7d9 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -178,7 +178,9 @@ JsonToken BasicJsonTokenizer<ALLOC>::next()
             return m_token;
         }
 
-        m_content = m_content.substr(m_pos) + newContent;
+        // in place, because substr() would take the memory from a default constructed allocator
+        (void)m_content.erase(0, m_pos);
+        (void)m_content.append(newContent);
         m_pos = 0;
     }
 
-- 
2.43.0


From 357b4b3aa1dc1bcfd77c3ed9a970b588a9bae175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 26/26] fix: do not lose the last JSON value when the previous
 chunk ended at a token boundary

---
 runtime/src/zserio/JsonTokenizer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 07dd7d9..d6ff805 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -236,6 +236,8 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            // the end of file which might have been seen at the end of the previous chunk is not valid any more
+            m_token = JsonToken::UNKNOWN;
             return false; // we are at the end of chunk => read more
         }
 
-- 
2.43.0

