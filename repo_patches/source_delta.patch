From bcd4fe36d603561d21156163520089fe93bf6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 01/40] fix: base64 Decode reads outside its lookup table for
 bytes >= 0x80

char is signed, so static_cast<size_t>(encoded[i]) sign-extends and indexes
far outside the 256-entry table.
---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 2e8ca576bacbb9a7e69ec832b31322a1a1836632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 02/40] fix: (de)serializing an empty MatrixXd indexes past the
 end of the buffer

---
 src/common_robotics_utilities/serialization.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..2fa0e8c 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -50,7 +50,12 @@ uint64_t SerializeMatrixXd(
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
   // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src (encountered if a matrix is empty) is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -143,7 +148,12 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   }
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src (encountered if a matrix is empty) is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From 8d16ebb63262b4973c5b6f7bb4effac32f606c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 03/40] fix: VoxelGrid access callback received the Y index in
 place of Z

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From e0d6b346f0661c97173a6959e5301c87f54f64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 04/40] fix: GridSizes accepted cell counts whose total
 overflows int64_t

---
 .../common_robotics_utilities/voxel_grid.hpp  | 54 +++++++++++--------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7752a26..2856a23 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <stdexcept>
@@ -84,6 +85,16 @@ private:
     return (param > 0);
   }
 
+  // Check that the total number of cells can be represented.
+  static bool CheckTotalCells(
+      const int64_t num_x_cells, const int64_t num_y_cells,
+      const int64_t num_z_cells)
+  {
+    const int64_t limit = std::numeric_limits<int64_t>::max();
+    return (num_y_cells <= limit / num_z_cells) &&
+           (num_x_cells <= limit / (num_y_cells * num_z_cells));
+  }
+
   bool Initialize(
       const double cell_x_size,
       const double cell_y_size,
@@ -97,27 +108,25 @@ private:
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(x_size) &&
         CheckPositiveValid(y_size) && CheckPositiveValid(z_size))
     {
-      // Set
-      cell_x_size_ = cell_x_size;
-      cell_y_size_ = cell_y_size;
-      cell_z_size_ = cell_z_size;
-      inv_cell_x_size_ = 1.0 / cell_x_size_;
-      inv_cell_y_size_ = 1.0 / cell_y_size_;
-      inv_cell_z_size_ = 1.0 / cell_z_size_;
-      num_x_cells_
-          = static_cast<int64_t>(std::ceil(x_size / cell_x_size));
-      num_y_cells_
-          = static_cast<int64_t>(std::ceil(y_size / cell_y_size));
-      num_z_cells_
-          = static_cast<int64_t>(std::ceil(z_size / cell_z_size));
-      x_size_ = static_cast<double>(num_x_cells_) * cell_x_size_;
-      y_size_ = static_cast<double>(num_y_cells_) * cell_y_size_;
-      z_size_ = static_cast<double>(num_z_cells_) * cell_z_size_;
-      stride1_ = num_y_cells_ * num_z_cells_;
-      stride2_ = num_z_cells_;
-      valid_ = true;
-
-      return true;
+      // Counts that cannot be represented as int64_t must be caught before they
+      // are converted.
+      const double num_x_cells = std::ceil(x_size / cell_x_size);
+      const double num_y_cells = std::ceil(y_size / cell_y_size);
+      const double num_z_cells = std::ceil(z_size / cell_z_size);
+      const double limit =
+          static_cast<double>(std::numeric_limits<int64_t>::max());
+      if (num_x_cells < limit && num_y_cells < limit && num_z_cells < limit)
+      {
+        return Initialize(
+            cell_x_size, cell_y_size, cell_z_size,
+            static_cast<int64_t>(num_x_cells),
+            static_cast<int64_t>(num_y_cells),
+            static_cast<int64_t>(num_z_cells));
+      }
+      else
+      {
+        return false;
+      }
     }
     else
     {
@@ -136,7 +145,8 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(num_x_cells) &&
-        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells))
+        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells) &&
+        CheckTotalCells(num_x_cells, num_y_cells, num_z_cells))
     {
       // Set
       cell_x_size_ = cell_x_size;
-- 
2.43.0


From 33d95b2a2fc785829f1353e56d0c0b726106e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 05/40] fix: spatial hashed voxel grid rejected locations
 within rounding error of a chunk boundary

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 62 ++++++++++++-------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..5511123 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -176,37 +178,49 @@ private:
   GridSizes sizes_;
   DSHVGFillStatus fill_status_ = DSHVGFillStatus::NOT_FILLED;
 
+  // Get the index of the cell that contains the given location along one axis,
+  // or -1 if the location is outside of this chunk. The chunk that contains a
+  // location is found by dividing by the chunk size, so a location within
+  // rounding error of the boundary of this chunk belongs to its outermost cell.
+  static int64_t GetLocationAxisCell(
+      const double location, const double base, const double chunk_size,
+      const double cell_size, const int64_t num_cells)
+  {
+    const double location_wrt_chunk = location - base;
+    const double rounding_error = 4.0 * std::numeric_limits<double>::epsilon()
+        * std::max(chunk_size, std::max(std::abs(location), std::abs(base)));
+    if (location_wrt_chunk >= -rounding_error
+        && location_wrt_chunk <= chunk_size + rounding_error)
+    {
+      const int64_t cell =
+          static_cast<int64_t>(std::floor(location_wrt_chunk / cell_size));
+      return std::max<int64_t>(0, std::min(cell, num_cells - 1));
+    }
+    else
+    {
+      return -1;
+    }
+  }
+
   int64_t GetLocationDataIndex(const Eigen::Vector4d& location) const
   {
-    const Eigen::Vector4d location_wrt_chunk = location - region_.Base();
-    // First, make sure the location is in the range this chunk covers
-    if (location_wrt_chunk(0) < 0.0
-        || location_wrt_chunk(1) < 0.0
-        || location_wrt_chunk(2) < 0.0
-        || location_wrt_chunk(0) >= sizes_.XSize()
-        || location_wrt_chunk(1) >= sizes_.YSize()
-        || location_wrt_chunk(2) >= sizes_.ZSize())
+    const Eigen::Vector4d& base = region_.Base();
+    const int64_t x_cell = GetLocationAxisCell(
+        location(0), base(0), sizes_.XSize(), sizes_.CellXSize(),
+        sizes_.NumXCells());
+    const int64_t y_cell = GetLocationAxisCell(
+        location(1), base(1), sizes_.YSize(), sizes_.CellYSize(),
+        sizes_.NumYCells());
+    const int64_t z_cell = GetLocationAxisCell(
+        location(2), base(2), sizes_.ZSize(), sizes_.CellZSize(),
+        sizes_.NumZCells());
+    if (x_cell < 0 || y_cell < 0 || z_cell < 0)
     {
       return -1;
     }
-    // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
-          || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
-      {
-        return -1;
-      }
-      else
-      {
-        return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0


From aed336c491746e5f6dd1aa2c6e84541fd089f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 06/40] fix: mutable accessors of spatial hashed voxel grids
 were const and could not compile

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 5511123..77be2cd 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -431,7 +431,7 @@ public:
   }
 
   DynamicSpatialHashedGridQuery<T> GetIndexMutable(
-      const GridIndex& internal_cell_index) const
+      const GridIndex& internal_cell_index)
   {
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -1072,7 +1072,7 @@ public:
     return chunks_;
   }
 
-  ChunkMap& GetMutableInternalChunks() const
+  ChunkMap& GetMutableInternalChunks()
   {
     if (OnMutableRawAccess())
     {
-- 
2.43.0


From 2abe7dbdc2f357dac44280a74eab350fa53f8f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 07/40] fix: hostile element counts overflowed the size checks
 when deserializing vectors and matrices

---
 .../common_robotics_utilities/serialization.hpp    |  8 ++++++--
 src/common_robotics_utilities/serialization.cpp    | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..0dba55e 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -473,11 +473,11 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(T) * size;
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
@@ -1004,6 +1004,10 @@ DeserializeNetworkMemcpyableVectorLike(const std::vector<uint8_t>& buffer,
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized(size);
   for (size_t idx = 0; idx < deserialized.size(); idx++)
   {
diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 2fa0e8c..7f07f7e 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,8 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -141,11 +143,19 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  const uint64_t max_dimension =
+      static_cast<uint64_t>(std::numeric_limits<ssize_t>::max());
+  if ((rows > max_dimension) || (cols > max_dimension))
+  {
+    throw std::invalid_argument("Matrix dimension cannot be represented");
+  }
+  const uint64_t max_elements =
+      (buffer.size() - current_position) / sizeof(double);
+  if ((cols > 0) && (rows > (max_elements / cols)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
-- 
2.43.0


From 2fea44a979cd10e93fe13851c3c46d2db1d49d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 08/40] fix: setting a non-finite location of a spatial hashed
 voxel grid recursed forever

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 77be2cd..cdcdc87 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -753,6 +753,11 @@ private:
   void AllocateChunkAt(
       const ChunkRegion& chunk_region, const DSHVGFillType fill_type)
   {
+    // A chunk at NaN or infinity could never be found again.
+    if (!chunk_region.Base().allFinite())
+    {
+      throw std::invalid_argument("Cannot allocate chunk at non-finite location");
+    }
     const auto result = chunks_.emplace(
         chunk_region,
         GridChunk(chunk_region, chunk_sizes_, fill_type, default_value_));
-- 
2.43.0


From fb708b1c2659667894083fe1baece99f519f7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 09/40] fix: network serialization of std::string could not be
 instantiated

---
 include/common_robotics_utilities/serialization.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index 0dba55e..a1af35c 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -708,7 +708,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     std::vector<uint8_t>& buffer,
     const uint64_t buffer_position)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
@@ -765,7 +766,8 @@ template<typename T>
 inline uint64_t SerializeNetworkMemcpyable(const T& item_to_serialize,
                                            std::vector<uint8_t>& buffer)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
@@ -816,7 +818,8 @@ template<typename T>
 inline Deserialized<T> DeserializeNetworkMemcpyable(
     const std::vector<uint8_t>& buffer, const uint64_t starting_offset)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
-- 
2.43.0


From e29f3ca46ea916d56cbc47d1329f3e2e6291a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 10/40] fix: in-place network serialization wrote outside the
 buffer for positions near 2^64

---
 include/common_robotics_utilities/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index a1af35c..1dae576 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -748,7 +748,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     memcpy(&temp_buffer[0], &swapped, 8);
   }
   // Move to buffer
-  if ((buffer_position + sizeof(item_to_serialize)) <= buffer.size())
+  if ((buffer_position <= buffer.size())
+      && (sizeof(item_to_serialize) <= (buffer.size() - buffer_position)))
   {
     memcpy(&buffer[buffer_position],
            temp_buffer.data(),
-- 
2.43.0


From a39dced34271257951792f99b95216d7be9b4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 11/40] fix: CompressAndWriteToFile did not report files that
 could not be written

---
 src/common_robotics_utilities/zlib_helpers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 4ea45b5..69361d8 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -156,9 +156,18 @@ void CompressAndWriteToFile(
 {
   const auto compressed = CompressBytes(uncompressed);
   std::ofstream output_file(filename, std::ios::out | std::ios::binary);
+  if (!output_file.is_open())
+  {
+    throw std::runtime_error("Failed to open file [" + filename + "]");
+  }
   output_file.write(reinterpret_cast<const char*>(compressed.data()),
                     static_cast<std::streamsize>(compressed.size()));
   output_file.close();
+  if (!output_file)
+  {
+    throw std::runtime_error(
+        "Failed to write entire contents of file [" + filename + "]");
+  }
 }
 } // namespace zlib_helpers
 CRU_NAMESPACE_END
-- 
2.43.0


From d8f5fc86f377f41eb14fffbbeacaa8f1397ac034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 12/40] fix: writing a value read from a voxel grid back into
 it could read freed memory

---
 .../dynamic_spatial_hashed_voxel_grid.hpp          | 14 ++++++++++++--
 include/common_robotics_utilities/voxel_grid.hpp   |  4 +++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index cdcdc87..58d81f6 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -254,16 +254,20 @@ private:
 
   void SetCellFilledContents(const T& value)
   {
+    // The provided value may be a reference into the current contents.
+    const T fill_value = value;
     data_.clear();
     data_.resize(static_cast<typename BackingStore::size_type>(
-        sizes_.TotalCells()), value);
+        sizes_.TotalCells()), fill_value);
     fill_status_ = DSHVGFillStatus::CELL_FILLED;
   }
 
   void SetChunkFilledContents(const T& value)
   {
+    // The provided value may be a reference into the current contents.
+    const T fill_value = value;
     data_.clear();
-    data_.resize(1, value);
+    data_.resize(1, fill_value);
     fill_status_ = DSHVGFillStatus::CHUNK_FILLED;
   }
 
@@ -520,9 +524,12 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // The provided value may be a reference into the current contents.
+      const T new_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
       fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, new_value);
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -548,9 +555,12 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // The provided value may be a reference into the current contents.
+      const T new_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
       fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, new_value);
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2856a23..a7e6e33 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -588,9 +588,11 @@ private:
 
   void SetContents(const T& value)
   {
+    // The provided value may be a reference into the current contents.
+    const T fill_value = value;
     data_.clear();
     data_.resize(static_cast<typename BackingStore::size_type>(
-        sizes_.TotalCells()), value);
+        sizes_.TotalCells()), fill_value);
   }
 
   uint64_t BaseSerializeSelf(
-- 
2.43.0


From edbc72717c4315b5a3eea5f2c7773707f5756bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 13/40] fix: dynamic parallel loops on the async backend
 ignored range_start

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From b916785716f3138a4bca6d73191e78101852aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 14/40] fix: parallel nearest neighbors lost results when a
 thread was given several ranges

---
 .../simple_knearest_neighbors.hpp                         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_knearest_neighbors.hpp b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
index 3e2cec3..e41c659 100644
--- a/include/common_robotics_utilities/simple_knearest_neighbors.hpp
+++ b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
@@ -196,11 +196,17 @@ inline std::vector<IndexAndDistance> GetKNearestNeighborsInRangeParallel(
       const auto per_range_work = [&](
           const parallelism::ThreadWorkRange& work_range)
       {
-        per_thread_nearests[work_range.GetThreadNum()] =
+        const auto range_nearests =
             GetKNearestNeighborsInRangeSerial<Item, Value, Container>(
                 items, static_cast<size_t>(work_range.GetRangeStart()),
                 static_cast<size_t>(work_range.GetRangeEnd()), current,
                 distance_fn, K);
+        // A thread may be given more than one range, for example when called
+        // from inside an existing OpenMP parallel context.
+        auto& thread_nearests = per_thread_nearests[work_range.GetThreadNum()];
+        thread_nearests.insert(
+            thread_nearests.end(), range_nearests.begin(),
+            range_nearests.end());
       };
 
       // Dispatch, preferably using OpenMP if available, std::async otherwise.
-- 
2.43.0


From 467369d15495c05bce3857c7ea3b3caa140f7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 15/40] fix: OwningGraphOverlay inherited its whole interface
 privately and could not be used

---
 include/common_robotics_utilities/simple_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..8cc47c5 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -946,7 +946,8 @@ public:
 };
 
 template<typename NodeValueType, typename GraphType>
-class OwningGraphOverlay : NonOwningGraphOverlay<NodeValueType, GraphType>
+class OwningGraphOverlay
+    : public NonOwningGraphOverlay<NodeValueType, GraphType>
 {
 private:
   std::shared_ptr<const GraphType> owned_base_graph_;
-- 
2.43.0


From b4206b7fdd27c6189d93ff3faf80286fbce07b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 16/40] fix: edges between a new state and the roadmap got each
 other's distance and validity

---
 .../simple_prm_planner.hpp                    | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..72d339f 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,6 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +281,32 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(nearest_neighbor.Distance(),
+                           nearest_neighbor.Distance());
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+      // The distance from KNN is for the KNN direction only
+      const bool knn_distance_is_graph_to_node =
+          nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE;
+      const double graph_to_node_distance
+          = (knn_distance_is_graph_to_node)
+            ? nearest_neighbor.Distance()
+            : distance_fn(nearest_neighbor_state, state);
       const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+          = (knn_distance_is_graph_to_node)
+            ? distance_fn(state, nearest_neighbor_state)
+            : nearest_neighbor.Distance();
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From 741a387d16ac6bf7a5493a3713b5974837b43d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 17/40] fix: roadmap KNN results with negative indices were not
 rejected

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 72d339f..66bd995 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -115,7 +115,7 @@ private:
   {
     for (const auto& neighbor : nearest_neighbors)
     {
-      if (neighbor.Index() >= roadmap_size ||
+      if (neighbor.Index() < 0 || neighbor.Index() >= roadmap_size ||
           neighbor.Index() >= max_node_index_for_knn)
       {
         throw std::runtime_error(
-- 
2.43.0


From 84426c5d6e9f3c7a3fecf64bdf0877780b7c4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 18/40] fix: updating the edges of an overlaid roadmap in
 parallel migrated nodes concurrently

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 66bd995..ef2637d 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -692,6 +692,13 @@ void UpdateRoadMapEdges(
     throw std::invalid_argument("Provided roadmap has invalid linkage");
   }
 
+  // Mutable access to the nodes of an overlaid roadmap migrates them to the
+  // overlay, which cannot be done in parallel, so migrate all of them first.
+  for (int64_t node_index = 0; node_index < roadmap.Size(); node_index++)
+  {
+    roadmap.GetNodeMutable(node_index);
+  }
+
   const auto per_item_work = [&](
       const int32_t thread_num, const int64_t current_node_index)
   {
-- 
2.43.0


From 7e67bb8a57f70e3381827131e7bfd0692dcaecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 19/40] fix: RRT planners called an empty goal callback when
 the given trees already hold a solution

---
 .../simple_rrt_planner.hpp                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..235d3d4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -705,7 +705,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
@@ -958,10 +961,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From db72f36f050e9ed9bdd97dad1161bfae82c6567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 20/40] fix: connecting an RRT node to a missing parent left a
 broken node in the tree

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 235d3d4..087d2f5 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,10 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    if (parent_index < 0 || parent_index >= Size())
+    {
+      throw std::out_of_range("parent_index is not in the tree");
+    }
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From 3a926973a27f779fcbeec14c1990d80ae7882825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 21/40] fix: time warping took the diagonal step when the two
 other neighbors tied

---
 include/common_robotics_utilities/simple_dtw.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..2a8b2a4 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -91,11 +91,11 @@ public:
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
+        if (im1j <= im1jm1 && im1j <= ijm1)
         {
           prev_cost = im1j;
         }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
+        else if (ijm1 <= im1j && ijm1 <= im1jm1)
         {
           prev_cost = ijm1;
         }
-- 
2.43.0


From 95d648d079d1820b9b03b7a0f4be929d91a179e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 22/40] fix: K-means hung when asked for more clusters than
 there are items

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..f1f5eff 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,10 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (num_clusters > static_cast<int64_t>(data.size()))
+  {
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From 0981d23f3611a8e2c0f3d03f9686c6a51a9cc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 23/40] fix: GetArbitraryOrthogonalVector returned rounding
 error parallel to the vector

---
 include/common_robotics_utilities/math.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 5e885d5..ee657ff 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -450,6 +450,11 @@ GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
   const ssize_t vector_size = vector.size();
   if (vector_size > 0)
   {
+    // For any vector with two or more elements, at least one possibility has a
+    // rejection with squared norm >= 1/2. Smaller rejections may be nothing but
+    // numerical error, and thus not orthogonal at all.
+    const typename DerivedV::Scalar min_squared_norm
+        = static_cast<typename DerivedV::Scalar>(0.25);
     for (ssize_t idx = 0; idx < vector_size; idx++)
     {
       Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1> test_vector
@@ -459,7 +464,7 @@ GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
       const auto rejected_vector = VectorRejection(vector, test_vector);
       const typename DerivedV::Scalar rejected_vector_squared_norm
           = rejected_vector.squaredNorm();
-      if (rejected_vector_squared_norm > 0)
+      if (rejected_vector_squared_norm >= min_squared_norm)
       {
         return rejected_vector;
       }
-- 
2.43.0


From 808d9bd1d74258b875ae2292850ebf0b5482c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 24/40] fix: TOTP of paths that double back on themselves could
 hang on NaN blends

---
 .../time_optimal_trajectory_parametrization.cpp              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..3fd3827 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -157,7 +157,10 @@ public:
     }
     double distance = std::min((start - intersection).norm(),
                                (end - intersection).norm());
-    const double angle = std::acos(start_direction.dot(end_direction));
+    // Directions are only normalized to within rounding error, so their dot
+    // product may be just outside the domain of acos if they are opposed.
+    const double angle = std::acos(std::max(
+        -1.0, std::min(1.0, start_direction.dot(end_direction))));
     // Enforce max deviation limit
     const double deviation_limited_distance
         = max_deviation * std::sin(0.5 * angle) / (1.0 - std::cos(0.5 * angle));
-- 
2.43.0


From 757a9b4256a2477f515b5d9864b9735e05aa4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 25/40] fix: TOTP of paths that repeat waypoints ended at NaN,
 hung or crawled

---
 .../time_optimal_trajectory_parametrization.cpp       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 3fd3827..bb7bd61 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -231,7 +231,7 @@ class Path
 {
 public:
 
-  Path(const std::list<Eigen::VectorXd>& path,
+  Path(const std::list<Eigen::VectorXd>& waypoints,
        const double maxDeviation = 0.0);
 
   Path(const Path& path);
@@ -361,13 +361,18 @@ private:
 };
 
 // Class method definitions
-Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
+Path::Path(const std::list<Eigen::VectorXd>& waypoints,
+           const double max_deviation)
   : length_(0.0)
 {
+  // Repeated waypoints would lead to segments without length or direction.
+  std::list<Eigen::VectorXd> path = waypoints;
+  path.unique();
+
   if (path.size() < 2)
   {
     throw std::invalid_argument(
-        "TOTP for paths with fewer than two waypoints is ill-defined");
+        "TOTP for paths with fewer than two distinct waypoints is ill-defined");
   }
   if (!std::isfinite(max_deviation))
   {
-- 
2.43.0


From 424cd448d41f9a25673bd53ee4b2c3200e8518fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 26/40] fix: TOTP with invalid arguments hung or read past the
 limits

---
 ...ime_optimal_trajectory_parametrization.cpp | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index bb7bd61..4873db6 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1194,6 +1194,42 @@ std::unique_ptr<PositionVelocityTrajectoryInterface> ParametrizePathTOTP(
     const Eigen::VectorXd& max_acceleration,
     const double max_deviation, const double timestep)
 {
+  if (max_velocity.size() != max_acceleration.size())
+  {
+    throw std::invalid_argument(
+        "max_velocity.size() != max_acceleration.size()");
+  }
+  if ((max_velocity.array() < 0.0).any()
+      || (max_acceleration.array() < 0.0).any())
+  {
+    throw std::invalid_argument(
+        "max_velocity and max_acceleration must be >= 0");
+  }
+  if (!(timestep > 0.0))
+  {
+    throw std::invalid_argument("timestep must be > 0");
+  }
+  for (const auto& waypoint : path)
+  {
+    if (waypoint.size() != max_velocity.size())
+    {
+      throw std::invalid_argument("waypoint.size() != max_velocity.size()");
+    }
+    if (!waypoint.array().isFinite().all())
+    {
+      throw std::invalid_argument("waypoint must be finite");
+    }
+    for (ssize_t idx = 0; idx < waypoint.size(); idx++)
+    {
+      // Joints that do not move along the path may have limits of zero.
+      if ((waypoint(idx) != path.front()(idx))
+          && !((max_velocity(idx) > 0.0) && (max_acceleration(idx) > 0.0)))
+      {
+        throw std::invalid_argument(
+            "max_velocity and max_acceleration of moving joints must be > 0");
+      }
+    }
+  }
   return std::unique_ptr<PositionVelocityTrajectoryInterface>(
       new TOTPTrajectoryImpl(
           path, max_velocity, max_acceleration, max_deviation, timestep));
-- 
2.43.0


From e143b4f7e741739f7a99aead2eebc36b4586505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 27/40] fix: clones of TOTP trajectories used the original's
 cached segment

---
 .../time_optimal_trajectory_parametrization.cpp       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 4873db6..4fa434e 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -276,6 +276,17 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // The cached trajectory segment belongs to the trajectory being copied, so
+  // the copy must start with an empty cache.
+  Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
-- 
2.43.0


From bdd7fdf0bd03ad74566b96404b2b2d12199d4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 28/40] fix: assigning an OwningMaybe or TaggedUnion destroyed
 the old value twice when the new one could not be constructed, or was part of
 the old one

---
 include/common_robotics_utilities/maybe.hpp | 30 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..531be4d 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -33,6 +33,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -52,6 +57,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -69,7 +79,13 @@ private:
         value_b_.~B();
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
+    // If constructing the next value throws, there is nothing left to destroy.
+    type_ = TYPE_NONE;
   }
 
 public:
@@ -79,7 +95,7 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  enum {TYPE_A, TYPE_B, TYPE_NONE} type_{};
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
@@ -103,9 +119,13 @@ public:
   {
     if (this != std::addressof(other))
     {
+      // Copy first, since the copy may throw, and other may be (part of) the
+      // value that is being replaced.
+      TaggedUnion<A, B> copy(other);
+
       Cleanup();
 
-      ConstructCopy(other);
+      ConstructMove(std::move(copy));
     }
     return *this;
   }
@@ -114,9 +134,13 @@ public:
   {
     if (this != std::addressof(other))
     {
+      // Move out first, since other may be (part of) the value that is being
+      // replaced.
+      TaggedUnion<A, B> moved(std::move(other));
+
       Cleanup();
 
-      ConstructMove(std::move(other));
+      ConstructMove(std::move(moved));
     }
     return *this;
   }
-- 
2.43.0


From b923932a56f87d79989848ba6063f6df0cd64930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:13 +0000
Subject: [PATCH 29/40] fix: GetUniformRandomInRange rejected or overflowed on
 ranges larger than their type

---
 include/common_robotics_utilities/utility.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/utility.hpp b/include/common_robotics_utilities/utility.hpp
index 72d9a62..dc71337 100644
--- a/include/common_robotics_utilities/utility.hpp
+++ b/include/common_robotics_utilities/utility.hpp
@@ -2,9 +2,12 @@
 
 #include <atomic>
 #include <chrono>
+#include <cmath>
+#include <cstdint>
 #include <cstdlib>
 #include <functional>
 #include <future>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <map>
@@ -261,10 +264,14 @@ SizeType GetUniformRandomInRange(
   {
     throw std::invalid_argument("start must be <= end");
   }
-  const SizeType range = end - start;
-  const SizeType offset =
-      GetUniformRandomIndex<SizeType>(uniform_unit_real_fn, range + 1);
-  return start + offset;
+  // The size of the range may exceed what SizeType can represent, so work with
+  // (modular) unsigned arithmetic.
+  const uint64_t range =
+      static_cast<uint64_t>(end) - static_cast<uint64_t>(start);
+  const uint64_t offset = (range < std::numeric_limits<uint64_t>::max())
+      ? GetUniformRandomIndex<uint64_t>(uniform_unit_real_fn, range + 1)
+      : static_cast<uint64_t>(std::ldexp(uniform_unit_real_fn(), 64));
+  return static_cast<SizeType>(static_cast<uint64_t>(start) + offset);
 }
 
 template <class T>
-- 
2.43.0


From c18cf1e31016eec0d9fee624d0186810800880e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 30/40] fix: reseeding XorShift1024StarPRNG kept its position,
 so the sequence differed from a fresh generator's

---
 include/common_robotics_utilities/simple_prngs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..ba6ae8a 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -173,6 +173,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From f75bf1759271f6883525838a3a38509ca83a39a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 31/40] fix: InterpolateHotToCold returned NaN for an empty
 range of values

---
 include/common_robotics_utilities/color_builder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/color_builder.hpp b/include/common_robotics_utilities/color_builder.hpp
index 03b993d..13682ae 100644
--- a/include/common_robotics_utilities/color_builder.hpp
+++ b/include/common_robotics_utilities/color_builder.hpp
@@ -163,7 +163,9 @@ inline ColorType InterpolateHotToCold(
   }
   else
   {
-    g = 1.0 + 4.0 * (min_value + 0.75 * range - real_value) / range;
+    // If min_value and max_value are equal, every value is clamped to both.
+    g = (range > 0.0)
+        ? 1.0 + 4.0 * (min_value + 0.75 * range - real_value) / range : 0.0;
     b = 0.0;
   }
   return MakeFromFloatColors<ColorType>(
-- 
2.43.0


From b7b94366f1017ec43554b049bd370aef957f010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 32/40] fix: printing a std::forward_list did not compile

---
 include/common_robotics_utilities/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/print.hpp b/include/common_robotics_utilities/print.hpp
index f844797..9897c90 100644
--- a/include/common_robotics_utilities/print.hpp
+++ b/include/common_robotics_utilities/print.hpp
@@ -507,7 +507,7 @@ inline std::string Print(const std::forward_list<T, Allocator>& listtoprint,
                          const std::string& separator)
 {
   std::ostringstream strm;
-  if (listtoprint.size() > 0)
+  if (!listtoprint.empty())
   {
     if (add_delimiters)
     {
-- 
2.43.0


From c367fc7f37b0d53a691584e999966f12cd02c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 33/40] fix: gaussian_distributions.hpp did not compile

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b7c0aa2..92ab954 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -2,8 +2,12 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
+#include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <Eigen/Geometry>
 #include <common_robotics_utilities/cru_namespace.hpp>
 
@@ -152,7 +156,7 @@ private:
   double std_upper_bound_ = 0.0;
 
   enum class DrawCases {TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE};
-  DrawCases case_ = NONE;
+  DrawCases case_ = DrawCases::NONE;
   std::uniform_real_distribution<double> uniform_unit_dist_;
   std::uniform_real_distribution<double> uniform_range_dist_;
   std::exponential_distribution<double> exponential_dist_;
-- 
2.43.0


From 61d629500534e2fcc90e9f0b7468da0d11f4a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 34/40] fix: truncated gaussians far from the mean drew from
 the wrong range

Candidates were drawn between the bounds, not the standardized bounds, and
then scaled by mean and deviation, so values were outside of the bounds.
---
 include/common_robotics_utilities/gaussian_distributions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 92ab954..74702c8 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -306,7 +306,6 @@ public:
       const double mean, const double stddev, const double lower_bound,
       const double upper_bound)
     : uniform_unit_dist_(0.0, 1.0),
-      uniform_range_dist_(lower_bound, upper_bound),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
     // Set operating parameters
@@ -351,6 +350,8 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
         }
       }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
-- 
2.43.0


From ab87fcd8fc319cc95abd4ae4d3bfd2f0912674e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 35/40] fix: truncated gaussians with bounds the wrong way
 round were accepted

Sampling from them never ended.
---
 include/common_robotics_utilities/gaussian_distributions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 74702c8..f1990ff 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -308,6 +308,10 @@ public:
     : uniform_unit_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
+    if (lower_bound > upper_bound)
+    {
+      throw std::invalid_argument("lower_bound > upper_bound");
+    }
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
-- 
2.43.0


From 160dcc91a09298b9b4ea4e90fcb131a797f86783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 36/40] fix: truncated gaussians with close bounds around the
 mean rejected (almost) every draw

With both bounds at the mean, sampling never ended.
---
 .../gaussian_distributions.hpp                    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index f1990ff..b5ae2e7 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -242,7 +242,7 @@ private:
       {
         rho = std::exp((std::pow(upper_bound, 2) - std::pow(z, 2)) / 2);
       }
-      else if (0 < upper_bound && lower_bound < 0)
+      else
       {
         rho = std::exp(-std::pow(z, 2) / 2);
       }
@@ -328,7 +328,18 @@ public:
       case_ = DrawCases::NONE;
       if (0.0 <= std_upper_bound_ && 0.0 >= std_lower_bound_)
       {
-        case_ = DrawCases::TYPE_1;
+        // Sampling the full gaussian would reject most draws if the bounds are
+        // close together.
+        if (std_upper_bound_ - std_lower_bound_ < std::sqrt(2.0 * M_PI))
+        {
+          case_ = DrawCases::TYPE_4;
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
+        }
+        else
+        {
+          case_ = DrawCases::TYPE_1;
+        }
       }
       if (0.0 < std_lower_bound_
           && std_upper_bound_ == std::numeric_limits<double>::infinity())
-- 
2.43.0


From e2ea67dd5ca06a7e58992520cf07b45a30e74df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 37/40] fix: truncated gaussians with bounds far below the mean
 rejected almost every draw

The method for distant bounds was only ever selected for bounds above the mean.
---
 .../common_robotics_utilities/gaussian_distributions.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b5ae2e7..d1dffc5 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -358,6 +358,15 @@ public:
           && !(std_upper_bound_ == std::numeric_limits<double>::infinity()
                || std_lower_bound_ == -std::numeric_limits<double>::infinity()))
       {
+        if (0.0 > std_upper_bound_)
+        {
+          // Mirror bounds below the mean to above it, where CheckSimple() can
+          // select the method that suits them.
+          const double mirrored_lower_bound = -1 * std_upper_bound_;
+          std_upper_bound_ = -1 * std_lower_bound_;
+          std_lower_bound_ = mirrored_lower_bound;
+          stddev_ = -1 * stddev_;
+        }
         if (CheckSimple(std_lower_bound_, std_upper_bound_))
         {
           case_ = DrawCases::TYPE_3;
-- 
2.43.0


From dc1ee2fb5aedd8879542e481103ac3b488eb60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 38/40] fix: multivariate gaussians of more than one dimension
 were rejected

The mean is a vector, so its number of columns was never that of the
covariance. A covariance that is not square aborted in the decomposition.
---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index d1dffc5..57fd918 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -417,6 +417,10 @@ private:
   static Eigen::MatrixXd CalculateNormTransform(
       const Eigen::MatrixXd& covariance)
   {
+    if (covariance.rows() != covariance.cols())
+    {
+      throw std::invalid_argument("covariance is not square");
+    }
     Eigen::MatrixXd norm_transform;
     Eigen::LLT<Eigen::MatrixXd> chol_solver(covariance);
     if (chol_solver.info() == Eigen::Success)
@@ -441,7 +445,7 @@ public:
       : mean_(mean), norm_transform_(CalculateNormTransform(covariance)),
         unit_gaussian_dist_(0.0, 1.0)
   {
-    if (mean_.rows() != covariance.rows() || mean_.cols() != covariance.cols())
+    if (mean_.rows() != covariance.rows())
     {
       throw std::invalid_argument("mean and covariance are different sizes");
     }
-- 
2.43.0


From d2e3a4fb6a923fe9df660187e899898d5dbd5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 39/40] fix: a spatial hashed voxel grid asked its callback
 twice for one write, and kept the chunk when the second answer was no

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 50 ++++++++-----------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 58d81f6..09def45 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -966,25 +966,22 @@ public:
     {
       const ChunkRegion region = GetContainingChunkRegion(grid_frame_location);
       auto found_chunk_itr = chunks_.find(region);
-      if (found_chunk_itr != chunks_.end())
-      {
-        if (set_type == DSHVGSetType::SET_CELL)
-        {
-          return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
-        }
-        else
-        {
-          return found_chunk_itr->second.SetChunkValue(value);
-        }
-      }
-      else
+      if (found_chunk_itr == chunks_.end())
       {
         const DSHVGFillType fill_type
             = (set_type == DSHVGSetType::SET_CELL)
                 ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK;
         AllocateChunkAt(region, fill_type);
-        return SetLocation4d(location, set_type, value);
+        found_chunk_itr = chunks_.find(region);
+      }
+      if (set_type == DSHVGSetType::SET_CELL)
+      {
+        return found_chunk_itr->second.SetCellLocation4d(
+            grid_frame_location, value);
+      }
+      else
+      {
+        return found_chunk_itr->second.SetChunkValue(value);
       }
     }
     else
@@ -1019,25 +1016,22 @@ public:
     {
       const ChunkRegion region = GetContainingChunkRegion(grid_frame_location);
       auto found_chunk_itr = chunks_.find(region);
-      if (found_chunk_itr != chunks_.end())
-      {
-        if (set_type == DSHVGSetType::SET_CELL)
-        {
-          return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
-        }
-        else
-        {
-          return found_chunk_itr->second.SetChunkValue(value);
-        }
-      }
-      else
+      if (found_chunk_itr == chunks_.end())
       {
         const DSHVGFillType fill_type
             = (set_type == DSHVGSetType::SET_CELL)
                 ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK;
         AllocateChunkAt(region, fill_type);
-        return SetLocation4d(location, set_type, value);
+        found_chunk_itr = chunks_.find(region);
+      }
+      if (set_type == DSHVGSetType::SET_CELL)
+      {
+        return found_chunk_itr->second.SetCellLocation4d(
+            grid_frame_location, value);
+      }
+      else
+      {
+        return found_chunk_itr->second.SetChunkValue(value);
       }
     }
     else
-- 
2.43.0


From 25983f0a51f760905c222b22b47916f93b2c0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 40/40] fix: pruning nodes that do not exist renumbered the
 others wrongly or threw

---
 include/common_robotics_utilities/simple_graph.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 8cc47c5..ca39436 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -432,11 +432,17 @@ OutputGraphType PruneGraph(
   // node_to_prune is greater than the original to/from index.
   std::vector<int64_t> vector_nodes_to_prune
       = utility::GetKeysFromSetLike<int64_t>(nodes_to_prune);
+  // Indices of nodes that do not exist must not affect the remaining nodes.
+  vector_nodes_to_prune.erase(
+      std::remove_if(
+          vector_nodes_to_prune.begin(), vector_nodes_to_prune.end(),
+          [&](const int64_t index) { return !graph.IndexInRange(index); }),
+      vector_nodes_to_prune.end());
   std::sort(vector_nodes_to_prune.begin(), vector_nodes_to_prune.end());
   // Make the pruned graph, initialized with the number of nodes we expect it
   // to contain.
   OutputGraphType pruned_graph(
-      graph.Size() - static_cast<int64_t>(nodes_to_prune.size()));
+      graph.Size() - static_cast<int64_t>(vector_nodes_to_prune.size()));
 
   // First, serial pass through to copy nodes to be kept
   for (int64_t node_index = 0; node_index < graph.Size(); node_index++)
-- 
2.43.0

