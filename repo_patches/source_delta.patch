From 427adc9d50f941aed0dfea8f02d4677c228cd326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:54 +0000
Subject: [PATCH 01/54] fix: let a bitmap be subtracted from itself

---
 src/paimon/common/utils/roaring_bitmap32.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/utils/roaring_bitmap32.cpp b/src/paimon/common/utils/roaring_bitmap32.cpp
index 4f5b2ad..b300f3e 100644
--- a/src/paimon/common/utils/roaring_bitmap32.cpp
+++ b/src/paimon/common/utils/roaring_bitmap32.cpp
@@ -146,6 +146,11 @@ RoaringBitmap32& RoaringBitmap32::operator&=(const RoaringBitmap32& other) {
     return *this;
 }
 RoaringBitmap32& RoaringBitmap32::operator-=(const RoaringBitmap32& other) {
+    if (&other == this) {
+        // the underlying in-place difference does not accept the same bitmap twice
+        GetRoaringBitmap(roaring_bitmap_) = roaring::Roaring();
+        return *this;
+    }
     GetRoaringBitmap(roaring_bitmap_) -= GetRoaringBitmap(other.roaring_bitmap_);
     return *this;
 }
-- 
2.43.0


From 3acb1ce2f2ad5ea1aea32258e9ed64c9f047708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:20 +0000
Subject: [PATCH 02/54] fix: refuse values below the minimum of a bit slice
 index

Appending such a value wrote past the end of the slices.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..78a050f 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -256,6 +256,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0


From 61a93e6aaa307bcf90e69873933620b0200896fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:20 +0000
Subject: [PATCH 03/54] fix: report an impossible slice count in a bit slice
 index

A corrupt count made the reader throw or reserve gigabytes.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 78a050f..d1f9722 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,6 +59,10 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0 || slice_num > 64) {
+        return Status::Invalid(
+            fmt::format("deserialize bsi index fail, invalid slice num {}", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
     slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
-- 
2.43.0


From 459b96ce7b0d3bd497e471bd45d4f91e5bdf65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:20 +0000
Subject: [PATCH 04/54] fix: check the bitmap length of a serialized global
 index result

A negative or huge length made the reader throw std::bad_alloc.
---
 src/paimon/common/global_index/global_index_result.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..be68449 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,11 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    PAIMON_ASSIGN_OR_RAISE(int64_t pos, in.GetPos());
+    if (bitmap_bytes_len < 0 || bitmap_bytes_len > static_cast<int64_t>(length) - pos) {
+        return Status::Invalid(
+            fmt::format("invalid bitmap length {} for GlobalIndexResult", bitmap_bytes_len));
+    }
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
-- 
2.43.0


From 02da07945cc7ddbb1b93d9035d185cd18fae6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:20 +0000
Subject: [PATCH 05/54] fix: merge and exclude ranges that end at the largest
 row id

Adding one to such an end overflowed, so overlapping ranges stayed apart and excluded
ids came back.
---
 src/paimon/common/utils/range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/range.cpp b/src/paimon/common/utils/range.cpp
index 42d360a..cb8e748 100644
--- a/src/paimon/common/utils/range.cpp
+++ b/src/paimon/common/utils/range.cpp
@@ -43,7 +43,7 @@ std::vector<Range> Range::SortAndMergeOverlap(const std::vector<Range>& ranges,
     for (size_t i = 1; i < sorted_ranges.size(); ++i) {
         Range next = sorted_ranges[i];
         // Check if current and next overlap (not just adjacent)
-        if (current.to + (adjacent ? 1 : 0) >= next.from) {
+        if (current.to >= next.from || (adjacent && current.to + 1 == next.from)) {
             // Merge: extend current range
             current = Range(current.from, std::max(current.to, next.to));
         } else {
@@ -125,10 +125,10 @@ std::vector<Range> Range::Exclude(const std::vector<Range>& ranges) const {
             result.emplace_back(current, intersect.value().from - 1);
         }
         // Move current position past the intersection
-        current = intersect.value().to + 1;
-        if (current > to) {
-            break;
+        if (intersect.value().to >= to) {
+            return result;
         }
+        current = intersect.value().to + 1;
     }
     // Add the remaining part after all exclusions (if any)
     if (current <= to) {
-- 
2.43.0


From 2cf52e47359ed6adef21fcd5d700699cfcdf8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:49 +0000
Subject: [PATCH 06/54] fix: keep the position of a byte array stream when a
 seek fails

The position was moved before it was checked, so a read after a refused seek copied
from outside the buffer.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..7395aa0 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t base = 0;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            base = position_;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            base = static_cast<int64_t>(length_);
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    int64_t position = 0;
+    if (__builtin_add_overflow(base, offset, &position) || position < 0 ||
+        position > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", position, length_));
     }
+    position_ = position;
     return Status::OK();
 }
 
-- 
2.43.0


From f513c8f273148b749e9ca2a767f5435d540442d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:49 +0000
Subject: [PATCH 07/54] fix: refuse huge read offsets in a byte array stream

offset + size wrapped around and passed the bounds check.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index 7395aa0..09d4f1c 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -73,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || size > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From 809c0916ed99c43e28cd10244d98b5975a7a5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:49 +0000
Subject: [PATCH 08/54] fix: allow positions beyond 2 GiB in an offset stream

Positions were cut to 32 bits before the bounds check, so valid ones were refused and
invalid ones accepted.
---
 src/paimon/common/io/offset_input_stream.cpp | 2 +-
 src/paimon/common/io/offset_input_stream.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..0ce4a7e 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -122,7 +122,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..fa42899 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,7 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From 50fd7584d9be7dfac3f4aab9f3b1e3fc47b124f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:49 +0000
Subject: [PATCH 09/54] fix: keep the position of an offset stream in step with
 the wrapped stream

A refused seek moved the position, and a failed or short read advanced it by the
requested size.
---
 src/paimon/common/io/offset_input_stream.cpp | 27 ++++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 0ce4a7e..ab7468d 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -56,33 +56,38 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
     : wrapped_(wrapped), length_(length), offset_(offset) {}
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t base = 0;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
+            base = inner_position_;
+            break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            base = length_;
+            break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
+    int64_t inner_position = 0;
+    if (__builtin_add_overflow(base, offset, &inner_position)) {
+        inner_position = -1;
+    }
+    PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position));
+    PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + inner_position, SeekOrigin::FS_SEEK_SET));
+    inner_position_ = inner_position;
     return Status::OK();
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
     PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    PAIMON_ASSIGN_OR_RAISE(int32_t actual_size, wrapped_->Read(buffer, size));
+    inner_position_ += actual_size;
+    return actual_size;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-- 
2.43.0


From 07ae8d0b4ba706a4d10c5cf3440fa01021ade1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 10/54] fix: report the end of the wrapped stream in a buffered
 stream

A read of at least the buffer size that hit the end of the file aborted in debug
builds and looped forever otherwise.
---
 src/paimon/common/io/buffered_input_stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..d29d0c3 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -61,7 +61,11 @@ Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            return Status::Invalid(
+                fmt::format("read failed, expect read {} bytes, but stream ended after {} bytes",
+                            size, actual_read_len));
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
-- 
2.43.0


From 55973c9f8c0c44ed9ce9a3cb439725b5ffb64084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 11/54] fix: refuse to write strings whose length does not fit
 in 16 bits

The length was cut to 16 bits and the rest of the string silently dropped.
---
 src/paimon/common/io/data_output_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..fb8129b 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,10 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(
+            fmt::format("string of {} bytes is too long, length must fit in 16 bits", value.size()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
-- 
2.43.0


From 6ab48293db8166b67819f61397cf90d856a14f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 12/54] fix: check the uri length of a serialized blob
 descriptor

A negative length threw std::length_error out of a function that returns a status.
---
 src/paimon/common/data/blob_descriptor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..2b042dc 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,11 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    PAIMON_ASSIGN_OR_RAISE(int64_t pos, in.GetPos());
+    if (uri_length < 0 || uri_length > static_cast<int64_t>(size) - pos) {
+        return Status::Invalid(
+            fmt::format("invalid uri length {} in BlobDescriptor of {} bytes", uri_length, size));
+    }
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
-- 
2.43.0


From e19b1f211cf46a22336417495a2386724850aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 13/54] fix: stop a substring at the end of a string with a
 truncated character

The length announced by the first byte of the last character was followed past the end
of the string.
---
 src/paimon/common/data/binary_string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/binary_string.cpp b/src/paimon/common/data/binary_string.cpp
index aed44e4..d88289d 100644
--- a/src/paimon/common/data/binary_string.cpp
+++ b/src/paimon/common/data/binary_string.cpp
@@ -246,6 +246,8 @@ BinaryString BinaryString::SubStringMultiSegs(const int32_t start, const int32_t
         c += 1;
     }
 
+    // a truncated last character must not reach past the end
+    i = std::min(i, size_in_bytes_);
     if (i > j) {
         std::shared_ptr<Bytes> bytes =
             MemorySegmentUtils::CopyToBytes(segments_, offset_ + j, i - j, pool);
@@ -275,6 +277,8 @@ BinaryString BinaryString::Substring(int32_t begin_index, int32_t end_index,
             c += 1;
         }
 
+        // a truncated last character must not reach past the end
+        i = std::min(i, size_in_bytes_);
         if (i > j) {
             std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(i - j, pool);
             segment.Get(offset_ + j, bytes.get(), 0, i - j);
-- 
2.43.0


From 2624f912b7b7a693fd33e117386380ea8919f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 14/54] fix: compare memory segments byte by byte

Eight bytes at a time were compared as little-endian numbers, so the order depended on
the last differing byte.
---
 src/paimon/common/memory/memory_segment.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/memory/memory_segment.cpp b/src/paimon/common/memory/memory_segment.cpp
index 836010e..b9d5e71 100644
--- a/src/paimon/common/memory/memory_segment.cpp
+++ b/src/paimon/common/memory/memory_segment.cpp
@@ -18,18 +18,22 @@
 
 #include <algorithm>
 
+#include "paimon/common/utils/math.h"
+#include "paimon/io/byte_order.h"
+
 namespace paimon {
 
 int32_t MemorySegment::Compare(const MemorySegment& seg2, int32_t offset1, int32_t offset2,
                                int32_t len) const {
     while (len >= 8) {
-        // TODO(yonghao.fyh): support big endian, decide SmallEndian or BigEndian
-        // long l1 = GetLongBigEndian(offset1);
-        // long l2 = seg2.getLongBigEndian(offset2);
-        uint64_t l1 = GetValue<int64_t>(offset1);
-        uint64_t l2 = seg2.GetValue<int64_t>(offset2);
+        uint64_t l1 = GetValue<uint64_t>(offset1);
+        uint64_t l2 = seg2.GetValue<uint64_t>(offset2);
 
         if (l1 != l2) {
+            if (SystemByteOrder() == ByteOrder::PAIMON_LITTLE_ENDIAN) {
+                l1 = EndianSwapValue(l1);
+                l2 = EndianSwapValue(l2);
+            }
             return (l1 < l2) ? -1 : 1;
         }
 
-- 
2.43.0


From 3685c59e473a15c00d7d22d0bc3c5df63bd90904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 15/54] fix: truncate when bytes are copied to a smaller size

The copy wrote past the end of the new array although truncation is documented.
---
 src/paimon/common/memory/bytes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/memory/bytes.cpp b/src/paimon/common/memory/bytes.cpp
index 6b2b6c9..bf9e17c 100644
--- a/src/paimon/common/memory/bytes.cpp
+++ b/src/paimon/common/memory/bytes.cpp
@@ -16,6 +16,7 @@
 
 #include "paimon/memory/bytes.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <memory>
@@ -99,11 +100,10 @@ char& Bytes::operator[](size_t idx) const {
 }
 
 PAIMON_UNIQUE_PTR<Bytes> Bytes::CopyOf(const Bytes& other, size_t len, MemoryPool* pool) {
-    assert(len >= other.size_);
     assert(pool);
     auto bytes = Bytes::AllocateBytes(len, pool);
     if (bytes && bytes->data_ && other.size_ > 0) {
-        std::memcpy(bytes->data_, other.data_, other.size_);
+        std::memcpy(bytes->data_, other.data_, std::min(len, other.size_));
     }
     return bytes;
 }
-- 
2.43.0


From 0069b8641fd21bb561011abff0403fd8eb597984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 16/54] fix: never lower the peak usage of a memory pool

Two threads allocating at once could overwrite the peak with a smaller value.
---
 src/paimon/common/memory/memory_pool.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..dcf6d69 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,6 +39,13 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    void Grow(int64_t delta) {
+        int64_t total = total_allocated_size.fetch_add(delta) + delta;
+        int64_t peak = max_allocated.load();
+        while (peak < total && !max_allocated.compare_exchange_weak(peak, total)) {
+        }
+    }
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
@@ -50,16 +57,14 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    Grow(size);
     return memptr;
 }
 
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        Grow(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
         return memptr;
     } else {
         if (p == nullptr) {
@@ -70,8 +75,7 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             Free(p, old_size);
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
-            total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+            Grow(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From 22f434e0d5f27fe16e3a136a675dab7fb922ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:52 +0000
Subject: [PATCH 17/54] fix: hand exceptions of asynchronous tasks to their
 future

---
 src/paimon/common/executor/future.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/executor/future.h b/src/paimon/common/executor/future.h
index 9f140fb..fe6509a 100644
--- a/src/paimon/common/executor/future.h
+++ b/src/paimon/common/executor/future.h
@@ -66,11 +66,15 @@ auto Via(Executor* executor, Func&& func) -> std::future<decltype(func())> {
 
     // Wrap the task and submit it to the executor.
     executor->Add([promise, func = std::forward<Func>(func)]() mutable {
-        if constexpr (std::is_void_v<ResultType>) {
-            func();
-            promise->set_value();
-        } else {
-            promise->set_value(func());
+        try {
+            if constexpr (std::is_void_v<ResultType>) {
+                func();
+                promise->set_value();
+            } else {
+                promise->set_value(func());
+            }
+        } catch (...) {
+            promise->set_exception(std::current_exception());
         }
     });
 
-- 
2.43.0


From a47b91d9158082e3877d80c2a2ce29aeb080899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:52 +0000
Subject: [PATCH 18/54] fix: compare code and message of statuses that carry
 details

---
 include/paimon/status.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/paimon/status.h b/include/paimon/status.h
index 2de31a7..5269b79 100644
--- a/include/paimon/status.h
+++ b/include/paimon/status.h
@@ -364,7 +364,9 @@ bool Status::Equals(const Status& s) const {
         if ((detail() && !s.detail()) || (!detail() && s.detail())) {
             return false;
         }
-        return *detail() == *s.detail();
+        if (!(*detail() == *s.detail())) {
+            return false;
+        }
     }
 
     return code() == s.code() && message() == s.message();
-- 
2.43.0


From c789ff8e922788f28b4b8d14c231690a0607062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:56 +0000
Subject: [PATCH 19/54] fix: do not reserve memory for an unchecked deletion
 file count

---
 src/paimon/core/table/source/deletion_file.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..a0d3ed0 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,7 +95,9 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
-            files.reserve(size);
+            if (size < 0) {
+                return Status::Invalid(fmt::format("Invalid deletion file count: {}", size));
+            }
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
                 if (version >= 4) {
-- 
2.43.0


From 567465dedae522ebe84501904ea9fa49856fdb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:43 +0000
Subject: [PATCH 20/54] fix: compare an exhausted 64-bit bitmap iterator
 without reading past the end

---
 third_party/roaring_bitmap/roaring.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/third_party/roaring_bitmap/roaring.hh b/third_party/roaring_bitmap/roaring.hh
index ff0c17b..d0ba988 100644
--- a/third_party/roaring_bitmap/roaring.hh
+++ b/third_party/roaring_bitmap/roaring.hh
@@ -2779,13 +2779,13 @@ public:
 
     bool operator==(const Roaring64MapSetBitForwardIterator &o) const {
         if (map_iter == map_end && o.map_iter == o.map_end) return true;
-        if (o.map_iter == o.map_end) return false;
+        if (map_iter == map_end || o.map_iter == o.map_end) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitForwardIterator &o) const {
         if (map_iter == map_end && o.map_iter == o.map_end) return false;
-        if (o.map_iter == o.map_end) return true;
+        if (map_iter == map_end || o.map_iter == o.map_end) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From a55bad735a5d28e08de61b59dfa11fd45ceed886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:24 +0000
Subject: [PATCH 21/54] fix: answer bit slice index comparisons with the
 smallest integer

---
 .../bsi/bit_slice_index_bitmap_file_index.cpp | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
index 0bbd993..91d930f 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
@@ -18,6 +18,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <limits>
 
 #include "fmt/format.h"
 #include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
@@ -155,6 +156,10 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
         if (value >= 0) {
             return reader->positive_->GreaterThan(value);
+        } else if (value == std::numeric_limits<int64_t>::min()) {
+            // has no magnitude, and all values are greater
+            return RoaringBitmap32::Or(reader->positive_->IsNotNull(),
+                                       reader->negative_->IsNotNull());
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->negative_->LessThan(-value));
             RoaringBitmap32 b2 = reader->positive_->IsNotNull();
@@ -172,6 +177,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
         if (value >= 0) {
             return reader->positive_->GreaterOrEqual(value);
+        } else if (value == std::numeric_limits<int64_t>::min()) {
+            return RoaringBitmap32::Or(reader->positive_->IsNotNull(),
+                                       reader->negative_->IsNotNull());
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->negative_->LessOrEqual(-value));
             RoaringBitmap32 b2 = reader->positive_->IsNotNull();
@@ -187,7 +195,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
     BitmapIndexResult::BitmapSupplier bitmap_supplier =
         [literal = literal, reader = shared_from_this()]() -> Result<RoaringBitmap32> {
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
-        if (value < 0) {
+        if (value == std::numeric_limits<int64_t>::min()) {
+            return RoaringBitmap32();
+        } else if (value < 0) {
             return reader->negative_->GreaterThan(-value);
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->positive_->LessThan(value));
@@ -203,7 +213,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
     BitmapIndexResult::BitmapSupplier bitmap_supplier =
         [literal = literal, reader = shared_from_this()]() -> Result<RoaringBitmap32> {
         PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
-        if (value < 0) {
+        if (value == std::numeric_limits<int64_t>::min()) {
+            return RoaringBitmap32();
+        } else if (value < 0) {
             return reader->negative_->GreaterOrEqual(-value);
         } else {
             PAIMON_ASSIGN_OR_RAISE(RoaringBitmap32 b1, reader->positive_->LessOrEqual(value));
@@ -233,7 +245,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         for (const auto& literal : literals) {
             PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
             RoaringBitmap32 equal;
-            if (value < 0) {
+            if (value == std::numeric_limits<int64_t>::min()) {
+                continue;
+            } else if (value < 0) {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->negative_->Equal(-value));
             } else {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->positive_->Equal(value));
@@ -256,7 +270,9 @@ Result<std::shared_ptr<FileIndexResult>> BitSliceIndexBitmapFileIndexReader::Vis
         for (const auto& literal : literals) {
             PAIMON_ASSIGN_OR_RAISE(int64_t value, reader->value_mapper_(literal));
             RoaringBitmap32 equal;
-            if (value < 0) {
+            if (value == std::numeric_limits<int64_t>::min()) {
+                continue;
+            } else if (value < 0) {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->negative_->Equal(-value));
             } else {
                 PAIMON_ASSIGN_OR_RAISE(equal, reader->positive_->Equal(value));
-- 
2.43.0


From 3a20380d990ce7b7f796bce49f296fc07c116ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:37 +0000
Subject: [PATCH 22/54] fix: read the number of hash functions of a bloom
 filter index as unsigned bytes

---
 .../common/file_index/bloomfilter/bloom_filter_file_index.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp b/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
index 0486909..1b880b2 100644
--- a/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
+++ b/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
@@ -60,7 +60,9 @@ Result<std::shared_ptr<BloomFilterFileIndexReader>> BloomFilterFileIndexReader::
     const std::shared_ptr<arrow::DataType>& arrow_type, const std::shared_ptr<Bytes>& bytes) {
     // compatible with java, little endian
     const char* data = bytes->data();
-    int32_t num_hash_functions = ((data[0] << 24) + (data[1] << 16) + (data[2] << 8) + data[3]);
+    auto byte_at = [data](int32_t i) { return static_cast<uint32_t>(static_cast<uint8_t>(data[i])); };
+    auto num_hash_functions = static_cast<int32_t>((byte_at(0) << 24) | (byte_at(1) << 16) |
+                                                   (byte_at(2) << 8) | byte_at(3));
     PAIMON_ASSIGN_OR_RAISE(FastHash::HashFunction hash_function,
                            FastHash::GetHashFunction(arrow_type));
     auto bit_set = std::make_unique<BloomFilter64::BitSet>(bytes, /*offset=*/sizeof(int32_t));
-- 
2.43.0


From 55a78fcc731a8ea1387ec9696f34488a84b3d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:58 +0000
Subject: [PATCH 23/54] fix: refuse a file index whose head length does not fit
 the file

---
 src/paimon/common/file_index/file_index_format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/file_index/file_index_format.cpp b/src/paimon/common/file_index/file_index_format.cpp
index bd59f67..ade85a3 100644
--- a/src/paimon/common/file_index/file_index_format.cpp
+++ b/src/paimon/common/file_index/file_index_format.cpp
@@ -57,6 +57,11 @@ class FileIndexFormatReaderImpl : public FileIndexFormat::Reader {
                             version, FileIndexFormat::V_1));
         }
         PAIMON_ASSIGN_OR_RAISE(int32_t head_length, data_input_stream.ReadValue<int32_t>());
+        PAIMON_ASSIGN_OR_RAISE(uint64_t file_length, input_stream->Length());
+        if (head_length <= 8 + 4 + 4 || static_cast<uint64_t>(head_length) > file_length) {
+            return Status::Invalid(fmt::format("invalid head length {} of file index of length {}",
+                                               head_length, file_length));
+        }
         auto head_bytes = std::make_unique<Bytes>(head_length - 8 - 4 - 4, pool.get());
         PAIMON_RETURN_NOT_OK(data_input_stream.ReadBytes(head_bytes.get()));
 
-- 
2.43.0


From a83169940c9e3b3ed48095e39803880827d02425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:58 +0000
Subject: [PATCH 24/54] fix: refuse index parts that do not fit the file

---
 .../file_index/bloomfilter/bloom_filter_file_index.cpp    | 8 ++++++++
 .../file_index/bsi/bit_slice_index_bitmap_file_index.cpp  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp b/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
index 1b880b2..f02d975 100644
--- a/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
+++ b/src/paimon/common/file_index/bloomfilter/bloom_filter_file_index.cpp
@@ -43,6 +43,14 @@ Result<std::shared_ptr<FileIndexReader>> BloomFilterFileIndex::CreateReader(
     }
     auto arrow_type = arrow_schema->field(0)->type();
 
+    PAIMON_ASSIGN_OR_RAISE(uint64_t file_length, input_stream->Length());
+    if (start < 0 || length <= static_cast<int32_t>(sizeof(int32_t)) ||
+        static_cast<uint64_t>(start) + static_cast<uint64_t>(length) > file_length) {
+        return Status::Invalid(
+            fmt::format("create reader for BloomFilterFileIndex failed, invalid start {} or "
+                        "length {} in file of length {}",
+                        start, length, file_length));
+    }
     PAIMON_RETURN_NOT_OK(input_stream->Seek(start, SeekOrigin::FS_SEEK_SET));
     auto bytes = std::make_shared<Bytes>(length, pool.get());
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len,
diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
index 91d930f..b62a539 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.cpp
@@ -52,6 +52,14 @@ Result<std::shared_ptr<FileIndexReader>> BitSliceIndexBitmapFileIndex::CreateRea
     }
     auto arrow_type = arrow_schema->field(0)->type();
 
+    PAIMON_ASSIGN_OR_RAISE(uint64_t file_length, input_stream->Length());
+    if (start < 0 || length <= 0 ||
+        static_cast<uint64_t>(start) + static_cast<uint64_t>(length) > file_length) {
+        return Status::Invalid(
+            fmt::format("create reader for BitSliceIndexBitmapFileIndex failed, invalid start {} or "
+                        "length {} in file of length {}",
+                        start, length, file_length));
+    }
     PAIMON_RETURN_NOT_OK(input_stream->Seek(start, SeekOrigin::FS_SEEK_SET));
     auto bytes = std::make_unique<Bytes>(length, pool.get());
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len,
-- 
2.43.0


From 7c04a8890e19cd809593bfffae245dd4ac08870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:18 +0000
Subject: [PATCH 25/54] fix: drop partly read bitmap index metadata after a
 failed read

---
 .../common/file_index/bitmap/bitmap_file_index.cpp    | 11 ++++++-----
 .../file_index/bitmap/bitmap_file_index_meta_v2.cpp   |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
index c05e4b1..eb46d85 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index.cpp
@@ -341,16 +341,17 @@ Status BitmapFileIndexReader::ReadInternalMeta() {
         DataInputStream data_input_stream(input_stream_);
         PAIMON_ASSIGN_OR_RAISE(int8_t version, data_input_stream.ReadValue<int8_t>());
         FieldType converted_type = BitmapFileIndex::ConvertType(data_type_);
+        std::shared_ptr<BitmapFileIndexMeta> meta;
         if (version == BitmapFileIndex::VERSION_1) {
-            bitmap_file_index_meta_ = std::make_shared<BitmapFileIndexMetaV1>(
-                converted_type, head_start_, length_, pool_);
+            meta = std::make_shared<BitmapFileIndexMetaV1>(converted_type, head_start_, length_,
+                                                           pool_);
         } else if (version == BitmapFileIndex::VERSION_2) {
-            bitmap_file_index_meta_ =
-                std::make_shared<BitmapFileIndexMetaV2>(converted_type, length_, pool_);
+            meta = std::make_shared<BitmapFileIndexMetaV2>(converted_type, length_, pool_);
         } else {
             return Status::Invalid(fmt::format("unknown bitmap file index version {}", version));
         }
-        PAIMON_RETURN_NOT_OK(bitmap_file_index_meta_->Deserialize(input_stream_));
+        PAIMON_RETURN_NOT_OK(meta->Deserialize(input_stream_));
+        bitmap_file_index_meta_ = meta;
     }
     return Status::OK();
 }
diff --git a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
index 5ed1ed3..6c7cf86 100644
--- a/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
+++ b/src/paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.cpp
@@ -204,6 +204,7 @@ Status BitmapFileIndexMetaV2::BitmapIndexBlock::TryDeserialize() {
         PAIMON_ASSIGN_OR_RAISE(std::function<Result<Literal>()> value_reader,
                                outer_->GetValueReader(in, /*move_body_start=*/false));
         PAIMON_ASSIGN_OR_RAISE(int32_t entry_num, in->ReadValue<int32_t>());
+        entry_list.clear();
         entry_list.reserve(entry_num);
         for (int32_t i = 0; i < entry_num; i++) {
             PAIMON_ASSIGN_OR_RAISE(Literal key, value_reader());
-- 
2.43.0


From 285c72175aece69085d2b5be1145e53d7a42a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:43 +0000
Subject: [PATCH 26/54] fix: leave the text unchanged when replacing an empty
 string

Replace looked for the empty string, which is found everywhere, so it inserted
the replacement up to the limit, or for ever without one.
---
 src/paimon/common/utils/string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/utils/string_utils.cpp b/src/paimon/common/utils/string_utils.cpp
index 88312d0..3cf7b56 100644
--- a/src/paimon/common/utils/string_utils.cpp
+++ b/src/paimon/common/utils/string_utils.cpp
@@ -29,6 +29,9 @@
 namespace paimon {
 std::string StringUtils::Replace(const std::string& text, const std::string& search_string,
                                  const std::string& replacement, int32_t max) {
+    if (search_string.empty()) {
+        return text;
+    }
     std::string str = text;
     size_t pos = str.find(search_string);
     int32_t count = 0;
-- 
2.43.0


From dc46557e436f29771a0d1da7295bf494819d9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:43 +0000
Subject: [PATCH 27/54] fix: report a failed close after writing a file

WriteFile ignored the outcome of closing the stream, so data that only fails to
reach the store when the stream is closed was reported as written.
---
 src/paimon/common/fs/file_system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/fs/file_system.cpp b/src/paimon/common/fs/file_system.cpp
index 262973e..6c42c8c 100644
--- a/src/paimon/common/fs/file_system.cpp
+++ b/src/paimon/common/fs/file_system.cpp
@@ -76,8 +76,9 @@ Status FileSystem::WriteFile(const std::string& path, const std::string& content
                                                path, length, write_length));
         }
         PAIMON_RETURN_NOT_OK(out->Flush());
+        guard.Release();
     }
-    return Status::OK();
+    return out->Close();
 }
 
 Status FileSystem::AtomicStore(const std::string& path, const std::string& content) {
-- 
2.43.0


From 74bc3bb73e8bef86c84533d1edf159d80b1a9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:43 +0000
Subject: [PATCH 28/54] fix: rename local files given with a file scheme

Rename passed the paths on with their scheme, so renaming, and storing a file
atomically, failed for paths such as file:/tmp/a.
---
 src/paimon/fs/local/local_file_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..0dd7255 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,7 +224,7 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
-- 
2.43.0


From 91d92eee97988f0ef1bea1a4bc7a5c27d057ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:31 +0000
Subject: [PATCH 29/54] fix: read dates through a projection as dates

ProjectedRow and ProjectedArray asked the row or array below for an integer,
which a columnar one cannot give for a date column.
---
 src/paimon/common/utils/projected_array.h | 3 ++-
 src/paimon/common/utils/projected_row.h   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/utils/projected_array.h b/src/paimon/common/utils/projected_array.h
index dd9377a..778ec5d 100644
--- a/src/paimon/common/utils/projected_array.h
+++ b/src/paimon/common/utils/projected_array.h
@@ -79,7 +79,8 @@ class ProjectedArray : public InternalArray {
     }
 
     int32_t GetDate(int32_t pos) const override {
-        return GetInt(pos);
+        assert(static_cast<size_t>(pos) < mapping_.size());
+        return array_->GetDate(mapping_[pos]);
     }
 
     int64_t GetLong(int32_t pos) const override {
diff --git a/src/paimon/common/utils/projected_row.h b/src/paimon/common/utils/projected_row.h
index 7ab820e..09be0fb 100644
--- a/src/paimon/common/utils/projected_row.h
+++ b/src/paimon/common/utils/projected_row.h
@@ -96,7 +96,8 @@ class ProjectedRow : public InternalRow {
     }
 
     int32_t GetDate(int32_t pos) const override {
-        return GetInt(pos);
+        assert(static_cast<size_t>(pos) < mapping_.size());
+        return row_->GetDate(mapping_[pos]);
     }
 
     int64_t GetLong(int32_t pos) const override {
-- 
2.43.0


From e5e7d4a945c6756694a22a17b4da970a728c594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:10 +0000
Subject: [PATCH 30/54] fix: sort a batch by descending sequence fields when
 the table asks for it

---
 src/paimon/core/io/key_value_in_memory_record_reader.cpp | 7 +++++--
 src/paimon/core/io/key_value_in_memory_record_reader.h   | 3 ++-
 src/paimon/core/mergetree/merge_tree_writer.cpp          | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 1297fed..2377b99 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -75,10 +75,11 @@ KeyValueInMemoryRecordReader::KeyValueInMemoryRecordReader(
     const std::vector<std::string>& user_defined_sequence_fields,
     const std::shared_ptr<FieldsComparator>& key_comparator,
     const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-    const std::shared_ptr<MemoryPool>& pool)
+    const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending)
     : last_sequence_num_(last_sequence_num),
       primary_keys_(primary_keys),
       user_defined_sequence_fields_(user_defined_sequence_fields),
+      sequence_fields_ascending_(sequence_fields_ascending),
       pool_(pool),
       value_struct_array_(std::move(struct_array)),
       row_kinds_(std::move(row_kinds)),
@@ -125,7 +126,9 @@ KeyValueInMemoryRecordReader::SortBatch() const {
         sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
     }
     for (const auto& name : user_defined_sequence_fields_) {
-        sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
+        sort_keys.emplace_back(name, sequence_fields_ascending_
+                                         ? arrow::compute::SortOrder::Ascending
+                                         : arrow::compute::SortOrder::Descending);
     }
     auto sort_options =
         arrow::compute::SortOptions(sort_keys, arrow::compute::NullPlacement::AtStart);
diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.h b/src/paimon/core/io/key_value_in_memory_record_reader.h
index ec6f7b0..295be3f 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.h
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.h
@@ -51,7 +51,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
         const std::vector<std::string>& user_defined_sequence_fields,
         const std::shared_ptr<FieldsComparator>& key_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-        const std::shared_ptr<MemoryPool>& pool);
+        const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending = true);
 
     class Iterator : public KeyValueRecordReader::Iterator {
      public:
@@ -82,6 +82,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
     int64_t last_sequence_num_ = -1;
     std::vector<std::string> primary_keys_;
     std::vector<std::string> user_defined_sequence_fields_;
+    bool sequence_fields_ascending_ = true;
     std::shared_ptr<MemoryPool> pool_;
     std::shared_ptr<arrow::StructArray> value_struct_array_;
     std::vector<RecordBatch::RowKind> row_kinds_;
diff --git a/src/paimon/core/mergetree/merge_tree_writer.cpp b/src/paimon/core/mergetree/merge_tree_writer.cpp
index db9216f..8d89d05 100644
--- a/src/paimon/core/mergetree/merge_tree_writer.cpp
+++ b/src/paimon/core/mergetree/merge_tree_writer.cpp
@@ -131,7 +131,7 @@ Status MergeTreeWriter::Flush() {
         auto in_memory_reader = std::make_unique<KeyValueInMemoryRecordReader>(
             sequence_number, std::move(batch_vec_[i]), std::move(row_kinds_vec_[i]),
             trimmed_primary_keys_, options_.GetSequenceField(), key_comparator_,
-            merge_function_wrapper_, pool_);
+            merge_function_wrapper_, pool_, options_.SequenceFieldSortOrderIsAscending());
         readers.push_back(std::move(in_memory_reader));
     }
     batch_vec_.clear();
-- 
2.43.0


From 98dcbfb94fbf7e6a43e346f783380962786bdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:33 +0000
Subject: [PATCH 31/54] fix: write a key all of whose records in a batch are
 ignored

---
 .../io/key_value_in_memory_record_reader.cpp  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 2377b99..858293e 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -40,9 +40,8 @@ class MemoryPool;
 
 Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
     reader_->merge_function_wrapper_->Reset();
-    std::shared_ptr<InternalRow> current_key;
-    while (cursor_ < reader_->value_struct_array_->length()) {
-        uint64_t index = reader_->sort_indices_->Value(cursor_);
+    auto record_at = [this](int64_t cursor) -> Result<KeyValue> {
+        uint64_t index = reader_->sort_indices_->Value(cursor);
         const RowKind* row_kind = RowKind::Insert();
         if (!reader_->row_kinds_.empty()) {
             PAIMON_ASSIGN_OR_RAISE(
@@ -53,8 +52,12 @@ Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
                                                  reader_->pool_, index);
         auto value = std::make_unique<ColumnarRow>(reader_->value_struct_array_,
                                                    reader_->value_fields_, reader_->pool_, index);
-        KeyValue kv(row_kind, reader_->last_sequence_num_ + index,
-                    /*level=*/KeyValue::UNKNOWN_LEVEL, std::move(key), std::move(value));
+        return KeyValue(row_kind, reader_->last_sequence_num_ + index,
+                        /*level=*/KeyValue::UNKNOWN_LEVEL, std::move(key), std::move(value));
+    };
+    std::shared_ptr<InternalRow> current_key;
+    while (cursor_ < reader_->value_struct_array_->length()) {
+        PAIMON_ASSIGN_OR_RAISE(KeyValue kv, record_at(cursor_));
         if (current_key == nullptr) {
             current_key = kv.key;
         } else if (reader_->key_comparator_->CompareTo(*current_key, *kv.key) != 0) {
@@ -65,7 +68,11 @@ Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
     }
     PAIMON_ASSIGN_OR_RAISE(std::optional<KeyValue> result,
                            reader_->merge_function_wrapper_->GetResult());
-    assert(result != std::nullopt);
+    if (result == std::nullopt) {
+        // all records of the key are ignored when merging: pass the last one on as a single
+        // record of a key would be, readers ignore it in turn
+        return record_at(cursor_ - 1);
+    }
     return std::move(result).value();
 }
 
-- 
2.43.0


From 568909638a695d00f55aab97893de513f4b707c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:44 +0000
Subject: [PATCH 32/54] fix: make no row out of ignored deletes in partial
 updates

---
 .../core/mergetree/compact/partial_update_merge_function.cpp | 2 ++
 .../core/mergetree/compact/partial_update_merge_function.h   | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 70f9439..a0e1abf 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -278,6 +278,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
         if (ignore_delete_) {
             return Status::OK();
         }
+        all_ignored_ = false;
         if (field_sequence_enabled_) {
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
             return Status::OK();
@@ -297,6 +298,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             "receiving delete records; 3. Configure sequence-group to retract partial "
             "columns.");
     }
+    all_ignored_ = false;
     last_seq_num_ = kv.sequence_number;
     if (field_comparators_.empty()) {
         UpdateNonNullFields(std::move(kv));
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index fb78abe..346496b 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -69,6 +69,7 @@ class PartialUpdateMergeFunction : public MergeFunction {
 
     void Reset() override {
         current_key_.reset();
+        all_ignored_ = true;
         row_ = std::make_unique<GenericRow>(getters_.size());
         for (auto& [_, agg] : field_aggregators_) {
             assert(agg);
@@ -79,6 +80,9 @@ class PartialUpdateMergeFunction : public MergeFunction {
     Status Add(KeyValue&& kv) override;
 
     Result<std::optional<KeyValue>> GetResult() override {
+        if (all_ignored_) {
+            return std::optional<KeyValue>();
+        }
         return std::optional<KeyValue>(
             KeyValue(current_delete_row_ ? RowKind::Delete() : RowKind::Insert(), last_seq_num_,
                      KeyValue::UNKNOWN_LEVEL, std::move(current_key_), std::move(row_)));
@@ -124,5 +128,6 @@ class PartialUpdateMergeFunction : public MergeFunction {
     std::unique_ptr<GenericRow> row_;
     int64_t last_seq_num_ = KeyValue::UNKNOWN_SEQUENCE;
     bool current_delete_row_ = false;
+    bool all_ignored_ = true;
 };
 }  // namespace paimon
-- 
2.43.0


From 1ee85ad9247192f722a1f8a63d22a9e4a215ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:51 +0000
Subject: [PATCH 33/54] fix: test key predicates against the schema of the key
 statistics

---
 src/paimon/core/operation/key_value_file_store_scan.cpp | 9 ++++++++-
 src/paimon/core/operation/key_value_file_store_scan.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/key_value_file_store_scan.cpp b/src/paimon/core/operation/key_value_file_store_scan.cpp
index 08b0c0b..8d4fbd7 100644
--- a/src/paimon/core/operation/key_value_file_store_scan.cpp
+++ b/src/paimon/core/operation/key_value_file_store_scan.cpp
@@ -22,6 +22,7 @@
 #include <set>
 #include <utility>
 
+#include "arrow/type.h"
 #include "paimon/common/data/binary_array.h"
 #include "paimon/common/data/binary_row.h"
 #include "paimon/common/predicate/predicate_filter.h"
@@ -77,7 +78,7 @@ Result<bool> KeyValueFileStoreScan::FilterByStats(const ManifestEntry& entry) co
 
     if (key_filter_ != nullptr) {
         const auto& stats = entry.File()->key_stats;
-        return key_filter_->Test(schema_, entry.File()->row_count, stats.MinValues(),
+        return key_filter_->Test(key_schema_, entry.File()->row_count, stats.MinValues(),
                                  stats.MaxValues(), stats.NullCounts());
     }
     return true;
@@ -112,6 +113,12 @@ Status KeyValueFileStoreScan::SplitAndSetKeyValueFilter(
             return Status::Invalid("invalid key predicate, cannot cast to PredicateFilter");
         }
         WithKeyFilter(key_filter);
+        // key stats hold the trimmed primary keys only
+        arrow::FieldVector key_fields;
+        for (const auto& key : trimmed_pk) {
+            key_fields.push_back(schema_->GetFieldByName(key));
+        }
+        key_schema_ = arrow::schema(key_fields);
     }
     // support value filter in bucket level
     WithValueFilter(predicates_);
diff --git a/src/paimon/core/operation/key_value_file_store_scan.h b/src/paimon/core/operation/key_value_file_store_scan.h
index 44f1db1..d6a9b38 100644
--- a/src/paimon/core/operation/key_value_file_store_scan.h
+++ b/src/paimon/core/operation/key_value_file_store_scan.h
@@ -112,6 +112,7 @@ class KeyValueFileStoreScan : public FileStoreScan {
  private:
     bool value_filter_force_enabled_ = false;
     std::shared_ptr<PredicateFilter> key_filter_;
+    std::shared_ptr<arrow::Schema> key_schema_;
     std::shared_ptr<PredicateFilter> value_filter_;
 };
 }  // namespace paimon
-- 
2.43.0


From fdb2876853c718dbe90460e40e141bbf06029b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:09 +0000
Subject: [PATCH 34/54] fix: order the keys being written ascending whatever
 the order of sequence fields

---
 src/paimon/core/operation/file_store_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/file_store_write.cpp b/src/paimon/core/operation/file_store_write.cpp
index ac21d0c..7907a32 100644
--- a/src/paimon/core/operation/file_store_write.cpp
+++ b/src/paimon/core/operation/file_store_write.cpp
@@ -144,7 +144,7 @@ Result<std::unique_ptr<FileStoreWrite>> FileStoreWrite::Create(std::unique_ptr<W
                                schema->GetFields(trimmed_primary_keys));
         PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<FieldsComparator> key_comparator,
                                FieldsComparator::Create(trimmed_primary_key_fields,
-                                                        options.SequenceFieldSortOrderIsAscending(),
+                                                        /*is_ascending_order=*/true,
                                                         /*use_view=*/true));
         auto primary_keys = schema->PrimaryKeys();
         PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 499c64f7ca013246b1d45dfc625e599c6647d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:47 +0000
Subject: [PATCH 35/54] fix: do not keep an ignored record beyond the reader it
 came from

---
 .../core/mergetree/compact/reducer_merge_function_wrapper.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/mergetree/compact/reducer_merge_function_wrapper.h b/src/paimon/core/mergetree/compact/reducer_merge_function_wrapper.h
index c7f60c9..e474898 100644
--- a/src/paimon/core/mergetree/compact/reducer_merge_function_wrapper.h
+++ b/src/paimon/core/mergetree/compact/reducer_merge_function_wrapper.h
@@ -52,7 +52,9 @@ class ReducerMergeFunctionWrapper : public MergeFunctionWrapper<KeyValue> {
             initial_kv_ = std::move(kv);
         } else {
             if (!is_initialized_) {
-                PAIMON_RETURN_NOT_OK(Merge(std::move(initial_kv_).value()));
+                // the merge function may ignore it: do not keep it beyond the reader it came from
+                KeyValue first = std::move(initial_kv_).value();
+                PAIMON_RETURN_NOT_OK(Merge(std::move(first)));
                 is_initialized_ = true;
             }
             PAIMON_RETURN_NOT_OK(Merge(std::move(kv)));
-- 
2.43.0


From 8bdabf717e5b715eaed7341bccf6adaa097b9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:53 +0000
Subject: [PATCH 36/54] fix: return the current name of a renamed column from
 older files

Files written before a rename were read back under the old column name when
nothing else about the columns differed.
---
 src/paimon/core/io/field_mapping_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/core/io/field_mapping_reader.cpp b/src/paimon/core/io/field_mapping_reader.cpp
index 427e774..32e95ef 100644
--- a/src/paimon/core/io/field_mapping_reader.cpp
+++ b/src/paimon/core/io/field_mapping_reader.cpp
@@ -61,6 +61,10 @@ FieldMappingReader::FieldMappingReader(int32_t field_count, std::unique_ptr<Batc
         if (i != non_partition_info_.idx_in_target_read_schema[i]) {
             need_mapping_ = true;
         }
+        if (non_partition_info_.non_partition_read_schema[i].Name() !=
+            non_partition_info_.non_partition_data_schema[i].Name()) {
+            need_mapping_ = true;
+        }
         if (non_partition_info_.cast_executors[i] != nullptr) {
             need_casting_ = true;
         }
-- 
2.43.0


From 159840d2daed1cd2db534e4603274302d6c7f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:53 +0000
Subject: [PATCH 37/54] fix: clean orphan files with the options of the table

The options stored with the table were merged with the given ones but then
not used.
---
 src/paimon/core/operation/orphan_files_cleaner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner.cpp b/src/paimon/core/operation/orphan_files_cleaner.cpp
index fd9d849..e2e23e0 100644
--- a/src/paimon/core/operation/orphan_files_cleaner.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner.cpp
@@ -164,7 +164,7 @@ Result<std::unique_ptr<OrphanFilesCleaner>> OrphanFilesCleaner::Create(
     for (const auto& [key, value] : ctx->GetOptions()) {
         opts[key] = value;
     }
-    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(ctx->GetOptions()));
+    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(opts));
     auto arrow_schema = DataField::ConvertDataFieldsToArrowSchema(schema->Fields());
     PAIMON_ASSIGN_OR_RAISE(std::vector<std::string> external_paths, options.CreateExternalPaths());
     PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 0472923454285681df202165443f118aacdba985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:53 +0000
Subject: [PATCH 38/54] fix: wait for the listing of directories when cleaning
 orphan files fails

The listing tasks use the cleaner, which may be gone once the error is
returned.
---
 src/paimon/core/operation/orphan_files_cleaner_impl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 7473472..f660005 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -92,6 +92,13 @@ Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
     }
     PAIMON_ASSIGN_OR_RAISE(std::set<std::string> all_dirs, ListPaimonFileDirs());
     std::vector<std::future<std::vector<std::unique_ptr<FileStatus>>>> file_statuses_futures;
+    ScopeGuard listing_guard([&file_statuses_futures]() {
+        for (const auto& future : file_statuses_futures) {
+            if (future.valid()) {
+                future.wait();
+            }
+        }
+    });
     for (const auto& dir : all_dirs) {
         file_statuses_futures.push_back(
             Via(executor_.get(), [this, dir] { return TryBestListingDirs(dir); }));
-- 
2.43.0


From eabb12420e784f9067330797cc84272b8c225424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:53 +0000
Subject: [PATCH 39/54] fix: report a table without snapshots to a stream that
 was ahead of it

Building the error message read the id of a snapshot that does not exist.
---
 src/paimon/core/table/source/data_table_stream_scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/data_table_stream_scan.cpp b/src/paimon/core/table/source/data_table_stream_scan.cpp
index 3d893f3..eaf2556 100644
--- a/src/paimon/core/table/source/data_table_stream_scan.cpp
+++ b/src/paimon/core/table/source/data_table_stream_scan.cpp
@@ -106,7 +106,7 @@ Result<std::optional<Snapshot>> DataTableStreamScan::GetNextSnapshot(
             return Status::Invalid(fmt::format(
                 "The next expected snapshot is too big! Most possible cause might be the table had "
                 "been recreated. The next snapshot id is {}, while the latest snapshot id is {}",
-                next_snapshot_id, latest.value()));
+                next_snapshot_id, latest ? std::to_string(latest.value()) : "null"));
         }
         return std::optional<Snapshot>();
     }
-- 
2.43.0


From af67b979e3b5d378ea1f45fc0650b728112c61f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:42 +0000
Subject: [PATCH 40/54] fix: do not cut a plan by the limit when only some row
 ranges of its files are read

---
 src/paimon/core/table/source/data_table_batch_scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/core/table/source/data_table_batch_scan.h b/src/paimon/core/table/source/data_table_batch_scan.h
index 405b784..ba5c1d8 100644
--- a/src/paimon/core/table/source/data_table_batch_scan.h
+++ b/src/paimon/core/table/source/data_table_batch_scan.h
@@ -46,6 +46,9 @@ class DataTableBatchScan : public AbstractTableScan {
 
     DataTableBatchScan* WithRowRanges(const std::vector<Range>& row_ranges) {
         snapshot_reader_->WithRowRanges(row_ranges);
+        // row counts of files also include rows out of the ranges, so they cannot tell when there
+        // are enough rows for the limit
+        push_down_limit_.reset();
         return this;
     }
 
-- 
2.43.0


From 6e608d5a140f7b1ac98549a5015c4dac79e716cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:42 +0000
Subject: [PATCH 41/54] fix: read rows of merged files of which none has a
 column that is read

---
 .../core/operation/data_evolution_split_read.cpp    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/paimon/core/operation/data_evolution_split_read.cpp b/src/paimon/core/operation/data_evolution_split_read.cpp
index 7a55ec4..4c41ca5 100644
--- a/src/paimon/core/operation/data_evolution_split_read.cpp
+++ b/src/paimon/core/operation/data_evolution_split_read.cpp
@@ -16,6 +16,7 @@
 
 #include "paimon/core/operation/data_evolution_split_read.h"
 
+#include <algorithm>
 #include <map>
 #include <utility>
 
@@ -348,6 +349,18 @@ Result<std::unique_ptr<DataEvolutionFileReader>> DataEvolutionSplitRead::CreateU
             }
         }
     }
+    if (std::all_of(reader_offsets.begin(), reader_offsets.end(),
+                    [](int32_t offset) { return offset == -1; })) {
+        // none of the files has a read field, read row ids to know how many rows there are
+        auto row_id_schema = DataField::ConvertDataFieldsToArrowSchema({SpecialFields::RowId()});
+        PAIMON_ASSIGN_OR_RAISE(
+            std::vector<std::unique_ptr<BatchReader>> file_readers,
+            CreateRawFileReaders(partition, fields_files[0]->Files(), row_id_schema,
+                                 /*predicate=*/nullptr, /*deletion_file_map=*/{}, row_ranges,
+                                 data_file_path_factory));
+        file_batch_readers[0] =
+            std::make_unique<ConcatBatchReader>(std::move(file_readers), pool_);
+    }
     // TODO(xinyu.lxy): check nullable when reader_offsets[read_field_idx] = -1
     return DataEvolutionFileReader::Create(std::move(file_batch_readers), raw_read_schema_,
                                            options_.GetReadBatchSize(), reader_offsets,
-- 
2.43.0


From ca63359d706071d1397ef663e9acf300f4e7780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:42 +0000
Subject: [PATCH 42/54] fix: give rows their index scores before a predicate
 filters them

---
 .../operation/data_evolution_split_read.cpp   | 24 +++++++++----------
 .../operation/data_evolution_split_read.h     |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/paimon/core/operation/data_evolution_split_read.cpp b/src/paimon/core/operation/data_evolution_split_read.cpp
index 4c41ca5..6b9a588 100644
--- a/src/paimon/core/operation/data_evolution_split_read.cpp
+++ b/src/paimon/core/operation/data_evolution_split_read.cpp
@@ -118,27 +118,21 @@ Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::CreateReader(
     const std::shared_ptr<Split>& split) {
     if (auto indexed_split = std::dynamic_pointer_cast<IndexedSplitImpl>(split)) {
         PAIMON_RETURN_NOT_OK(indexed_split->Validate());
-        PAIMON_ASSIGN_OR_RAISE(
-            std::unique_ptr<BatchReader> batch_reader,
-            InnerCreateReader(indexed_split->GetDataSplit(), indexed_split->RowRanges()));
-        if (HasIndexScoreField(raw_read_schema_)) {
-            return std::make_unique<CompleteIndexScoreBatchReader>(std::move(batch_reader),
-                                                                   indexed_split->Scores(), pool_);
-        }
-        return batch_reader;
+        return InnerCreateReader(indexed_split->GetDataSplit(), indexed_split->RowRanges(),
+                                 indexed_split->Scores());
     } else if (auto data_split = std::dynamic_pointer_cast<DataSplit>(split)) {
         if (HasIndexScoreField(raw_read_schema_)) {
             return Status::Invalid(
                 "Invalid read schema, read _INDEX_SCORE while split cannot cast to IndexedSplit");
         }
-        return InnerCreateReader(data_split, /*row_ranges=*/std::nullopt);
+        return InnerCreateReader(data_split, /*row_ranges=*/std::nullopt, /*scores=*/{});
     }
     return Status::Invalid("Invalid Split, cannot cast to IndexedSplit or DataSplit");
 }
 
 Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::InnerCreateReader(
     const std::shared_ptr<DataSplit>& data_split,
-    const std::optional<std::vector<Range>>& row_ranges) const {
+    const std::optional<std::vector<Range>>& row_ranges, const std::vector<float>& scores) const {
     auto split_impl = dynamic_cast<DataSplitImpl*>(data_split.get());
     if (split_impl == nullptr) {
         return Status::Invalid("unexpected error, split cast to impl failed");
@@ -169,10 +163,16 @@ Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::InnerCreateReader(
             sub_readers.push_back(std::move(evolution_reader));
         }
     }
-    auto concat_batch_reader = std::make_unique<ConcatBatchReader>(std::move(sub_readers), pool_);
+    std::unique_ptr<BatchReader> merged_reader =
+        std::make_unique<ConcatBatchReader>(std::move(sub_readers), pool_);
+    if (HasIndexScoreField(raw_read_schema_)) {
+        // scores are of all rows in row ranges, so must be assigned before predicate filters rows
+        merged_reader = std::make_unique<CompleteIndexScoreBatchReader>(std::move(merged_reader),
+                                                                        scores, pool_);
+    }
     PAIMON_ASSIGN_OR_RAISE(
         std::unique_ptr<BatchReader> batch_reader,
-        ApplyPredicateFilterIfNeeded(std::move(concat_batch_reader), context_->GetPredicate()));
+        ApplyPredicateFilterIfNeeded(std::move(merged_reader), context_->GetPredicate()));
     return std::make_unique<CompleteRowKindBatchReader>(std::move(batch_reader), pool_);
 }
 Result<std::unique_ptr<BatchReader>> DataEvolutionSplitRead::ApplyIndexAndDvReaderIfNeeded(
diff --git a/src/paimon/core/operation/data_evolution_split_read.h b/src/paimon/core/operation/data_evolution_split_read.h
index 5b8c700..78f4d99 100644
--- a/src/paimon/core/operation/data_evolution_split_read.h
+++ b/src/paimon/core/operation/data_evolution_split_read.h
@@ -130,7 +130,7 @@ class DataEvolutionSplitRead : public AbstractSplitRead {
  private:
     Result<std::unique_ptr<BatchReader>> InnerCreateReader(
         const std::shared_ptr<DataSplit>& data_split,
-        const std::optional<std::vector<Range>>& row_ranges) const;
+        const std::optional<std::vector<Range>>& row_ranges, const std::vector<float>& scores) const;
 
     static Result<std::vector<std::shared_ptr<DataEvolutionSplitRead::FieldBunch>>>
     SplitFieldBunches(const std::vector<std::shared_ptr<DataFileMeta>>& need_merge_files,
-- 
2.43.0


From 0172171d83c508bd6d99abf149078baf06fd6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:29 +0000
Subject: [PATCH 43/54] fix: do not refuse older blob files that a newer one is
 about to replace when rows are selected

---
 src/paimon/core/operation/data_evolution_split_read.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/data_evolution_split_read.cpp b/src/paimon/core/operation/data_evolution_split_read.cpp
index 6b9a588..07ca296 100644
--- a/src/paimon/core/operation/data_evolution_split_read.cpp
+++ b/src/paimon/core/operation/data_evolution_split_read.cpp
@@ -79,7 +79,9 @@ Status DataEvolutionSplitRead::BlobBunch::Add(const std::shared_ptr<DataFileMeta
                                 expected_next_first_row_id_, first_row_id));
             }
         }
-        if (!files_.empty()) {
+        // with row ids selection, file may be of an older schema and be removed later by the file
+        // with larger sequence number
+        if (!files_.empty() && !has_row_ids_selection_) {
             if (file->schema_id != files_[0]->schema_id) {
                 return Status::Invalid("All files in a blob bunch should have the same schema id.");
             }
-- 
2.43.0


From 3a68a3f9763d6d04460c697242a552d59c0dd0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:41 +0000
Subject: [PATCH 44/54] fix: refuse a blob file whose index does not fit the
 file

---
 .../format/blob/blob_file_batch_reader.cpp       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/paimon/format/blob/blob_file_batch_reader.cpp b/src/paimon/format/blob/blob_file_batch_reader.cpp
index b1e8b67..6de2658 100644
--- a/src/paimon/format/blob/blob_file_batch_reader.cpp
+++ b/src/paimon/format/blob/blob_file_batch_reader.cpp
@@ -50,6 +50,11 @@ Result<std::unique_ptr<BlobFileBatchReader>> BlobFileBatchReader::Create(
     }
 
     PAIMON_ASSIGN_OR_RAISE(uint64_t file_size, input_stream->Length());
+    if (file_size < kBlobFileHeaderLength) {
+        return Status::Invalid(
+            fmt::format("blob file size {} is less than header length {}", file_size,
+                        kBlobFileHeaderLength));
+    }
     PAIMON_RETURN_NOT_OK(input_stream->Seek(file_size - kBlobFileHeaderLength, FS_SEEK_SET));
     int8_t header[kBlobFileHeaderLength];
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_size, input_stream->Read(reinterpret_cast<char*>(header),
@@ -65,6 +70,12 @@ Result<std::unique_ptr<BlobFileBatchReader>> BlobFileBatchReader::Create(
             "create blob format reader failed. unsupported blob file version: {}", version));
     }
     int32_t index_length = GetIndexLength(header, 0);
+    if (index_length < 0 ||
+        static_cast<uint64_t>(index_length) > file_size - kBlobFileHeaderLength) {
+        return Status::Invalid(fmt::format("invalid index length {} in blob file of size {}",
+                                           index_length, file_size));
+    }
+    const int64_t data_length = file_size - kBlobFileHeaderLength - index_length;
     PAIMON_RETURN_NOT_OK(
         input_stream->Seek(file_size - kBlobFileHeaderLength - index_length, FS_SEEK_SET));
     std::vector<char> index_bytes(index_length, '\0');
@@ -81,6 +92,11 @@ Result<std::unique_ptr<BlobFileBatchReader>> BlobFileBatchReader::Create(
     blob_offsets.reserve(blob_lengths.size());
     int64_t offset = 0;
     for (const auto& blob_length : blob_lengths) {
+        if (blob_length < kBlobTotalMetaLength || blob_length > data_length - offset) {
+            return Status::Invalid(
+                fmt::format("invalid blob length {} at offset {} in blob file with data length {}",
+                            blob_length, offset, data_length));
+        }
         blob_offsets.push_back(offset);
         offset += blob_length;
     }
-- 
2.43.0


From 34f7f6e618d8e0acd344180507804cebf161d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:41 +0000
Subject: [PATCH 45/54] fix: do not keep memory of the first blob writer's pool
 for the rest of the process

---
 src/paimon/format/blob/blob_format_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/format/blob/blob_format_writer.cpp b/src/paimon/format/blob/blob_format_writer.cpp
index 1493a06..99d3490 100644
--- a/src/paimon/format/blob/blob_format_writer.cpp
+++ b/src/paimon/format/blob/blob_format_writer.cpp
@@ -123,9 +123,9 @@ Status BlobFormatWriter::WriteBlob(std::string_view blob_data) {
     PAIMON_ASSIGN_OR_RAISE(int64_t previous_pos, out_->GetPos());
 
     // write magic number
-    static PAIMON_UNIQUE_PTR<Bytes> MAGIC_NUMBER_BYTES =
+    PAIMON_UNIQUE_PTR<Bytes> magic_number_bytes =
         IntegerToLittleEndian<int32_t>(MAGIC_NUMBER, pool_);
-    PAIMON_RETURN_NOT_OK(WriteWithCrc32(MAGIC_NUMBER_BYTES->data(), MAGIC_NUMBER_BYTES->size()));
+    PAIMON_RETURN_NOT_OK(WriteWithCrc32(magic_number_bytes->data(), magic_number_bytes->size()));
 
     // write blob content
     std::unique_ptr<InputStream> in;
-- 
2.43.0


From dd4b21fc3afd4459645dd0f65cac45d4083c9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:39 +0000
Subject: [PATCH 46/54] fix: round a decimal to zero when its scale shrinks by
 more digits than it can have

---
 src/paimon/common/utils/decimal_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/utils/decimal_utils.cpp b/src/paimon/common/utils/decimal_utils.cpp
index 7d433dd..d3404e1 100644
--- a/src/paimon/common/utils/decimal_utils.cpp
+++ b/src/paimon/common/utils/decimal_utils.cpp
@@ -60,6 +60,9 @@ std::optional<arrow::Decimal128> DecimalUtils::RescaleDecimalWithOverflowCheck(
             return std::nullopt;
         }
         target_decimal = src_decimal.IncreaseScaleBy(delta_scale);
+    } else if (src_scale - target_scale > Decimal::MAX_PRECISION) {
+        // all digits are rounded away
+        target_decimal = arrow::Decimal128(0);
     } else if (src_scale > target_scale) {
         target_decimal = src_decimal.ReduceScaleBy(src_scale - target_scale, /*round=*/true);
     }
-- 
2.43.0


From afd6bfc4886ce0db287c93c3b70f461dd82ebbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:40 +0000
Subject: [PATCH 47/54] fix: keep the comment of a stored table schema when it
 is read

---
 src/paimon/core/schema/table_schema.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/paimon/core/schema/table_schema.cpp b/src/paimon/core/schema/table_schema.cpp
index 984215d..0777ddb 100644
--- a/src/paimon/core/schema/table_schema.cpp
+++ b/src/paimon/core/schema/table_schema.cpp
@@ -210,9 +210,13 @@ Result<std::vector<DataField>> TableSchema::GetFields(
 
 Result<std::unique_ptr<TableSchema>> TableSchema::CreateFromJson(const std::string& json_str) {
     PAIMON_ASSIGN_OR_RAISE(TableSchema table_schema, TableSchema::FromJsonString(json_str));
-    return InitSchema(table_schema.id_, table_schema.fields_, table_schema.highest_field_id_,
-                      table_schema.partition_keys_, table_schema.primary_keys_,
-                      table_schema.options_, table_schema.time_millis_);
+    PAIMON_ASSIGN_OR_RAISE(
+        std::unique_ptr<TableSchema> result,
+        InitSchema(table_schema.id_, table_schema.fields_, table_schema.highest_field_id_,
+                   table_schema.partition_keys_, table_schema.primary_keys_, table_schema.options_,
+                   table_schema.time_millis_));
+    result->comment_ = table_schema.comment_;
+    return result;
 }
 
 Result<std::unique_ptr<TableSchema>> TableSchema::InitSchema(
-- 
2.43.0


From 67aaac16e8a7f588d38886f1193a549c13f9eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:40 +0000
Subject: [PATCH 48/54] fix: refuse a nested type in a stored schema whose kind
 is not a text

---
 src/paimon/common/types/data_type_json_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/common/types/data_type_json_parser.cpp b/src/paimon/common/types/data_type_json_parser.cpp
index 06d9dae..43f85b9 100644
--- a/src/paimon/common/types/data_type_json_parser.cpp
+++ b/src/paimon/common/types/data_type_json_parser.cpp
@@ -615,6 +615,9 @@ Result<std::shared_ptr<arrow::Field>> DataTypeJsonParser::ParseComplexTypeField(
         return Status::Invalid("complex data type must have type");
     }
 
+    if (!type_json_value["type"].IsString()) {
+        return Status::Invalid("type of complex data type must be a string");
+    }
     std::string type_str = type_json_value["type"].GetString();
     bool nullable = true;
     if (type_str.find("NOT NULL") != std::string::npos) {
-- 
2.43.0


From 9470caedab3aadc0f8272b36a1fbb33f361c10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:40 +0000
Subject: [PATCH 49/54] fix: give up creating a table when its schema cannot be
 stored

---
 src/paimon/core/schema/schema_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/core/schema/schema_manager.cpp b/src/paimon/core/schema/schema_manager.cpp
index 94ed36a..ef38fff 100644
--- a/src/paimon/core/schema/schema_manager.cpp
+++ b/src/paimon/core/schema/schema_manager.cpp
@@ -114,6 +114,10 @@ Result<std::unique_ptr<TableSchema>> SchemaManager::CreateTable(
         if (status.ok()) {
             return table_schema;
         }
+        PAIMON_ASSIGN_OR_RAISE(bool exists, SchemaExists(/*id=*/0));
+        if (!exists) {
+            return status;
+        }
     }
     return Status::Invalid("create table failed, should not be here");
 }
-- 
2.43.0


From 28003f00799adf27117d2f4c8df58ecfcbe8ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:31 +0000
Subject: [PATCH 50/54] fix: refuse a decimal type in a stored schema whose
 precision is out of range

---
 src/paimon/common/types/data_type_json_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/types/data_type_json_parser.cpp b/src/paimon/common/types/data_type_json_parser.cpp
index 43f85b9..6b508f5 100644
--- a/src/paimon/common/types/data_type_json_parser.cpp
+++ b/src/paimon/common/types/data_type_json_parser.cpp
@@ -535,6 +535,11 @@ Result<std::shared_ptr<arrow::DataType>> TokenParser::ParseDecimalType() {
         }
         PAIMON_RETURN_NOT_OK(NextToken(TokenType::END_PARAMETER));
     }
+    if (precision < Decimal::MIN_PRECISION || precision > Decimal::MAX_PRECISION) {
+        return Status::Invalid(fmt::format("decimal precision {} must be between {} and {}",
+                                           precision, Decimal::MIN_PRECISION,
+                                           Decimal::MAX_PRECISION));
+    }
     return arrow::decimal128(precision, scale);
 }
 
-- 
2.43.0


From 637644ac23abcf76ed6210e1f58f0d93661dd03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:34 +0000
Subject: [PATCH 51/54] fix: refuse to migrate several files that would get the
 same name

---
 src/paimon/core/migrate/file_meta_utils.cpp | 22 +++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/paimon/core/migrate/file_meta_utils.cpp b/src/paimon/core/migrate/file_meta_utils.cpp
index 6582fe2..f935ce8 100644
--- a/src/paimon/core/migrate/file_meta_utils.cpp
+++ b/src/paimon/core/migrate/file_meta_utils.cpp
@@ -18,6 +18,7 @@
 
 #include <cassert>
 #include <cstdint>
+#include <set>
 #include <utility>
 
 #include "fmt/format.h"
@@ -60,16 +61,20 @@ Result<std::shared_ptr<TableSchema>> LoadTableSchema(const std::shared_ptr<FileS
     return table_schema.value();
 }
 
+std::string DstFileName(const std::string& src_file_path, const std::string& format_identifier) {
+    std::string file_name = PathUtil::GetName(src_file_path);
+    return StringUtils::EndsWith(file_name, "." + format_identifier)
+               ? file_name
+               : (file_name + "." + format_identifier);
+}
+
 Result<std::shared_ptr<DataFileMeta>> ConstructFileMeta(
     const std::string& src_file_path, const std::string& format_identifier,
     const std::string& bucket_path, int64_t schema_id,
     const std::shared_ptr<FormatStatsExtractor>& stats_extractor,
     const std::shared_ptr<FileSystem>& fs, const std::shared_ptr<MemoryPool>& memory_pool) {
-    std::string file_name = PathUtil::GetName(src_file_path);
     // rename
-    std::string new_file_name = StringUtils::EndsWith(file_name, "." + format_identifier)
-                                    ? file_name
-                                    : (file_name + "." + format_identifier);
+    std::string new_file_name = DstFileName(src_file_path, format_identifier);
     std::string dst_file_path = PathUtil::JoinPath(bucket_path, new_file_name);
     PAIMON_ASSIGN_OR_RAISE(bool dst_exist, fs->Exists(dst_file_path));
     if (!dst_exist) {
@@ -162,6 +167,15 @@ Result<std::unique_ptr<CommitMessage>> FileMetaUtils::GenerateCommitMessage(
     PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<FormatStatsExtractor> stats_extractor,
                            format->CreateStatsExtractor(&arrow_schema));
 
+    // a name can be used only once in the bucket directory
+    std::set<std::string> dst_file_names;
+    for (const auto& file : src_data_files) {
+        if (!dst_file_names.insert(DstFileName(file, format->Identifier())).second) {
+            return Status::Invalid(
+                fmt::format("more than one file to migrate is named as {}", file));
+        }
+    }
+
     // prepare data file meta
     std::vector<std::shared_ptr<DataFileMeta>> data_file_metas;
     data_file_metas.reserve(src_data_files.size());
-- 
2.43.0


From b043d9db272c3dd0df184d688991b1662d0010c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:34 +0000
Subject: [PATCH 52/54] fix: delete expired data files that lie on an external
 path

---
 src/paimon/core/operation/expire_snapshots.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/expire_snapshots.cpp b/src/paimon/core/operation/expire_snapshots.cpp
index 43f2c92..8dc629a 100644
--- a/src/paimon/core/operation/expire_snapshots.cpp
+++ b/src/paimon/core/operation/expire_snapshots.cpp
@@ -296,7 +296,8 @@ Status ExpireSnapshots::GetDataFilesToDelete(
     for (const auto& entry : data_file_entries) {
         PAIMON_ASSIGN_OR_RAISE(std::string bucket_path,
                                path_factory_->BucketPath(entry.Partition(), entry.Bucket()));
-        std::string data_file_path = PathUtil::JoinPath(bucket_path, entry.FileName());
+        std::string data_file_path =
+            entry.ExternalPath().value_or(PathUtil::JoinPath(bucket_path, entry.FileName()));
         if (entry.Kind() == FileKind::Add()) {
             data_files_to_delete->erase(data_file_path);
         } else if (entry.Kind() == FileKind::Delete()) {
-- 
2.43.0


From 1a8b5f50d0741635c013d91410b8c5358931dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:23:40 +0000
Subject: [PATCH 53/54] fix: refuse a stored snapshot of an unknown commit kind
 instead of asserting

---
 src/paimon/core/snapshot.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/paimon/core/snapshot.cpp b/src/paimon/core/snapshot.cpp
index a1f1749..9234da1 100644
--- a/src/paimon/core/snapshot.cpp
+++ b/src/paimon/core/snapshot.cpp
@@ -132,7 +132,6 @@ Snapshot::CommitKind Snapshot::CommitKind::FromString(const std::string& kind) {
     } else if (kind == "ANALYZE") {
         return Analyze();
     }
-    assert(false);
     return Unknown();
 }
 
-- 
2.43.0


From 18884ce1aac7da30a06a2803c3bca7de0b89caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:23:40 +0000
Subject: [PATCH 54/54] fix: read a stored snapshot without a version as one of
 the first version

---
 src/paimon/core/snapshot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/snapshot.cpp b/src/paimon/core/snapshot.cpp
index 9234da1..6f7e3a9 100644
--- a/src/paimon/core/snapshot.cpp
+++ b/src/paimon/core/snapshot.cpp
@@ -272,7 +272,7 @@ rapidjson::Value Snapshot::ToJson(rapidjson::Document::AllocatorType* allocator)
 }
 
 void Snapshot::FromJson(const rapidjson::Value& obj) noexcept(false) {
-    version_ = RapidJsonUtil::DeserializeKeyValue<int32_t>(obj, FIELD_VERSION, -1);
+    version_ = RapidJsonUtil::DeserializeKeyValue<std::optional<int32_t>>(obj, FIELD_VERSION);
     id_ = RapidJsonUtil::DeserializeKeyValue<int64_t>(obj, FIELD_ID);
     schema_id_ = RapidJsonUtil::DeserializeKeyValue<int64_t>(obj, FIELD_SCHEMA_ID);
     base_manifest_list_ =
-- 
2.43.0

