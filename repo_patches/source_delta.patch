From af02c95970a091630cbdc125aa159a4dc3d95a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 01/42] fix: SparseField const_iterator ignored the data window
 offset on demand-loaded blocks

When a block is activated on first dereference the voxel within the block must
be computed from coordinates relative to the data window, as everywhere else.
---
 export/SparseField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..8fbb382 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -962,8 +962,9 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -975,8 +976,9 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
-- 
2.43.0


From 2998a651edc68bd33daa8b08df35a258140666df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 02/42] fix: copying a SparseField const_iterator unbalanced
 the block reference counts

The destructor drops a reference to the current block of a demand-loaded field,
but the implicit copy constructor and assignment did not take one, so the block
of a live iterator could be evicted.
---
 export/SparseField.h | 65 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 8fbb382..288bb7a 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -906,12 +906,43 @@ class SparseField<Data_T>::const_iterator
     m_manager = m_field->m_fileManager;
     setupNextBlock(x, y, z);
   }
-  ~const_iterator() {
-    if (m_manager && m_blockId >= 0 &&
-        m_blockId < static_cast<int>(m_field->m_numBlocks)) {
-      if (m_field->m_blocks[m_blockId].isAllocated)
-        m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  const_iterator(const const_iterator &o)
+    : x(o.x), y(o.y), z(o.z),
+      m_p(o.m_p), m_isEmptyBlock(o.m_isEmptyBlock), 
+      m_blockIsActivated(o.m_blockIsActivated),
+      m_blockStepsTicker(o.m_blockStepsTicker), m_blockOrder(o.m_blockOrder),
+      m_blockI(o.m_blockI), m_blockJ(o.m_blockJ), m_blockK(o.m_blockK),
+      m_blockId(o.m_blockId), m_window(o.m_window), m_field(o.m_field),
+      m_manager(o.m_manager)
+  {
+    holdBlock();
+  }
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      // Hold the new block before letting go of the old one
+      o.holdBlock();
+      releaseBlock();
+      x = o.x;
+      y = o.y;
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI;
+      m_blockJ = o.m_blockJ;
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
     }
+    return *this;
+  }
+  ~const_iterator() {
+    releaseBlock();
   }
   const const_iterator& operator ++ ()
   {
@@ -997,6 +1028,30 @@ private:
 
   // Convenience methods -------------------------------------------------------
 
+  //! Whether this iterator accounts for a reference to its current block
+  bool holdsBlock() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
+
+  //! Adds a reference to the current block
+  void holdBlock() const
+  {
+    if (holdsBlock()) {
+      m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+    }
+  }
+
+  //! Drops the reference to the current block
+  void releaseBlock() const
+  {
+    if (holdsBlock()) {
+      m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+    }
+  }
+
   void setupNextBlock(int i, int j, int k)
   {
     m_field->applyDataWindowOffset(i, j, k);
-- 
2.43.0


From afa42188f6057681c2db2d9d2a29de4ee5f1313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 03/42] fix: SparseField block_iterator bounding boxes ignored
 the data window offset

---
 export/SparseField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 288bb7a..411a2f8 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1320,7 +1320,8 @@ private:
   {
     Box3i box;
     int blockSize = m_field.blockSize();
-    box.min = V3i(x * blockSize, y * blockSize, z * blockSize);
+    box.min = V3i(x * blockSize, y * blockSize, z * blockSize) + 
+      m_field.dataWindow().min;
     box.max = box.min + V3i(blockSize - 1, blockSize - 1, blockSize - 1);
     // Clamp the box
     box.min = FIELD3D_CLIP(box.min, m_field.dataWindow());
-- 
2.43.0


From 8379e632e638d19ad40b5f52053b279ff47d783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 04/42] fix: replacing the blocks of a demand-loaded
 SparseField left them in the cache

clear(), setSize(), setBlockOrder() and assignment deleted the blocks of a
demand-loaded field without removing them from the block cache, which later
freed or loaded into the deleted blocks.
---
 export/SparseField.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 411a2f8..6e19970 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -599,6 +599,10 @@ public:
   //! Initializes the block structure. Will clear any existing data
   void setupBlocks();
 
+  //! Removes a dynamically loaded field from the block cache. Must be called
+  //! before its blocks are deleted.
+  void detachFromCache();
+
   //! Deallocated the data of the given block and sets its empty value
   void deallocBlock(Block &block, const Data_T &emptyValue);
 
@@ -1346,7 +1350,8 @@ SparseField<Data_T>::SparseField()
   : base(),
     m_blockOrder(BLOCK_ORDER),
     m_blocks(NULL),
-    m_fileManager(NULL)
+    m_fileManager(NULL),
+    m_fileId(-1)
 {
   setupBlocks();
 }
@@ -1358,7 +1363,8 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
  : base(o),
    m_blockOrder(o.m_blockOrder),
    m_blocks(NULL),
-   m_fileManager(o.m_fileManager)
+   m_fileManager(NULL),
+   m_fileId(-1)
 {
   copySparseField(o);
 }
@@ -1367,15 +1373,25 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
 
 template <class Data_T>
 SparseField<Data_T>::~SparseField()
+{
+  detachFromCache();
+  if (m_blocks) {
+    delete[] m_blocks;
+  }
+}
+
+//----------------------------------------------------------------------------//
+
+template <class Data_T>
+void SparseField<Data_T>::detachFromCache()
 {
   if (m_fileManager) {
     // this file is dynamically managed, so we need to ensure the
     // cache doesn't point to this field's blocks because they are
     // about to be deleted
     m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
-  }
-  if (m_blocks) {
-    delete[] m_blocks;
+    m_fileManager = NULL;
+    m_fileId = -1;
   }
 }
 
@@ -1413,6 +1429,7 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
     setupReferenceBlocks();
   } else {
     // directly copy all values and blocks from the source, no extra setup
+    detachFromCache();
     m_blockRes = o.m_blockRes;
     m_blockXYSize = o.m_blockXYSize;
     if (m_blocks) {
@@ -1926,6 +1943,7 @@ void SparseField<Data_T>::setupBlocks()
                          static_cast<int>(blockRes.z));
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
+  detachFromCache();
   if (m_blocks) {
     delete[] m_blocks;
   }
-- 
2.43.0


From 9b584eb7e9ec7c37cd59c64f32237cad3a31fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 05/42] fix: block cache eviction looped for ever when every
 cached block was in use

With every resident block referenced and less than one block of budget left,
deallocateBlocks() kept turning the clock hand while holding the manager's
lock. Stop once a full turn finds nothing but blocks in use.
---
 export/SparseFile.h |  1 +
 src/SparseFile.cpp  | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 44f0b68..dfdf854 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -506,6 +506,7 @@ private:
 
   //! Utility function to attempt to deallocate a single block and
   //! advance the "hand"
+  //! \returns The number of bytes freed, or -1 if the block is in use
   template <class Data_T>
   int64_t deallocateBlock(const SparseFile::CacheBlock &cb);
 
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..3738d01 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -122,7 +122,7 @@ int64_t SparseFileManager::deallocateBlock(const SparseFile::CacheBlock &cb)
   
   // check whether the block is still in use
   if (reference->refCounts[cb.blockIdx] > 0)
-    return bytesFreed;
+    return -1;
 
   if (reference->blockUsed[cb.blockIdx]) {
     // the block was recently used according to Second-chance paging
@@ -161,8 +161,13 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Number of consecutive blocks found to be in use. Once the hand has passed
+  // over every block without finding one that isn't, there is nothing to free.
+  size_t numInUse = 0;
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
-         m_maxMemUseInBytes-m_memUse < bytesNeeded) {
+         m_maxMemUseInBytes-m_memUse < bytesNeeded &&
+         numInUse < m_blockCacheList.size()) {
 
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
@@ -170,43 +175,50 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     SparseFile::CacheBlock &cb = *m_nextBlock;
 
     // if bytesFreed is set to >0, then we've already freed a block
-    // and advanced the "clock hand" iterator
+    // and advanced the "clock hand" iterator. If it is set to <0, the block
+    // is in use and can't be freed
     int64_t bytesFreed = 0;
 
     switch(cb.blockType) {
     case DataTypeHalf:
       bytesFreed = deallocateBlock<half>(cb);
       if (bytesFreed > 0) {
+        numInUse = 0;
         continue;
       }
       break;
     case DataTypeFloat:
       bytesFreed = deallocateBlock<float>(cb);
       if (bytesFreed > 0) {
+        numInUse = 0;
         continue;
       }
       break;
     case DataTypeDouble:
       bytesFreed = deallocateBlock<double>(cb);
       if (bytesFreed > 0) {
+        numInUse = 0;
         continue;
       }
       break;
     case DataTypeVecHalf:
       bytesFreed = deallocateBlock<V3h>(cb);
       if (bytesFreed > 0) {
+        numInUse = 0;
         continue;
       }
       break;
     case DataTypeVecFloat:
       bytesFreed = deallocateBlock<V3f>(cb);
       if (bytesFreed > 0) {
+        numInUse = 0;
         continue;
       }
       break;
     case DataTypeVecDouble:
       bytesFreed = deallocateBlock<V3d>(cb);
       if (bytesFreed > 0) {
+        numInUse = 0;
         continue;
       }
       break;
@@ -214,6 +226,7 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     default:
       break;
     }
+    numInUse = bytesFreed < 0 ? numInUse + 1 : 0;
     ++m_nextBlock;
   }
 }
-- 
2.43.0


From 00741330ce15a0dcb11fa63fe79ee6f88220b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 06/42] hooks: optional block cache event hooks
 (FIELD3D_VERIF_HOOKS)

---
 export/SparseFile.h |  7 +++++++
 export/VerifHooks.h | 30 ++++++++++++++++++++++++++++++
 src/SparseFile.cpp  |  4 ++++
 3 files changed, 41 insertions(+)
 create mode 100644 export/VerifHooks.h

diff --git a/export/SparseFile.h b/export/SparseFile.h
index dfdf854..491e65f 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -58,6 +58,7 @@
 #include "OgawaFwd.h"
 #include "SparseDataReader.h"
 #include "Traits.h"
+#include "VerifHooks.h"
 
 //----------------------------------------------------------------------------//
 
@@ -751,6 +752,7 @@ void Reference<Data_T>::incBlockRef(int blockIdx)
   boost::mutex::scoped_lock lock(blockMutex[blockIdx]);
 #endif
   ++refCounts[blockIdx];
+  FIELD3D_VERIF_EVENT("inc", this, blockIdx, refCounts[blockIdx], 0);
 }
 
 //----------------------------------------------------------------------------//
@@ -764,6 +766,7 @@ void Reference<Data_T>::decBlockRef(int blockIdx)
   boost::mutex::scoped_lock lock(blockMutex[blockIdx]);
 #endif
   --refCounts[blockIdx];
+  FIELD3D_VERIF_EVENT("dec", this, blockIdx, refCounts[blockIdx], 0);
 }
 
 //----------------------------------------------------------------------------//
@@ -1225,6 +1228,8 @@ SparseFileManager::removeFieldFromCache(int refIdx)
     }
   }
   m_memUse -= bytesFreed;
+  FIELD3D_VERIF_EVENT("remove", reference, 0, m_memUse,
+                      m_blockCacheList.size());
 
   std::vector<int>().swap(reference->fileBlockIndices);
 #if F3D_NO_BLOCKS_ARRAY
@@ -1286,6 +1291,8 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
         reference->loadCounts[blockIdx]++;
         addBlockToCache(DataTypeTraits<Data_T>::typeEnum(), fileId, blockIdx);
         m_memUse += blockSize;
+        FIELD3D_VERIF_EVENT("load", reference, blockIdx, m_memUse,
+                            m_blockCacheList.size());
       }
     }
   }
diff --git a/export/VerifHooks.h b/export/VerifHooks.h
new file mode 100644
index 0000000..6b2fe01
--- /dev/null
+++ b/export/VerifHooks.h
@@ -0,0 +1,30 @@
+//----------------------------------------------------------------------------//
+
+/*! \file VerifHooks.h
+  \brief Event hooks for external verification harnesses.
+
+  Expands to nothing unless FIELD3D_VERIF_HOOKS is defined, in which case the 
+  program linking against the library supplies field3d_verif_event().
+*/
+
+//----------------------------------------------------------------------------//
+
+#ifndef _INCLUDED_Field3D_VerifHooks_H_
+#define _INCLUDED_Field3D_VerifHooks_H_
+
+#ifdef FIELD3D_VERIF_HOOKS
+
+extern "C" void field3d_verif_event(const char *event, const void *object, 
+                                    long a, long b, long c);
+
+#  define FIELD3D_VERIF_EVENT(event, object, a, b, c) \
+  field3d_verif_event(event, object, static_cast<long>(a), \
+                      static_cast<long>(b), static_cast<long>(c))
+
+#else
+
+#  define FIELD3D_VERIF_EVENT(event, object, a, b, c)
+
+#endif
+
+#endif // Include guard
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 3738d01..657e95b 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -137,6 +137,8 @@ int64_t SparseFileManager::deallocateBlock(const SparseFile::CacheBlock &cb)
     m_memUse -= bytesFreed;
     CacheList::iterator toRemove = m_nextBlock;
     ++m_nextBlock;
+    FIELD3D_VERIF_EVENT("evict", reference, cb.blockIdx, m_memUse,
+                        m_blockCacheList.size() - 1);
     m_blockCacheList.erase(toRemove);
   }
   return bytesFreed;
@@ -152,6 +154,8 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
   int64_t bytesFreed = reference->blockSize(cb.blockIdx);
   m_memUse -= bytesFreed;
   reference->unloadBlock(cb.blockIdx);
+  FIELD3D_VERIF_EVENT("flush", reference, cb.blockIdx, m_memUse,
+                      m_blockCacheList.size() - 1);
   it = m_blockCacheList.erase(it);
 }
 
-- 
2.43.0


From 9ec53b7c10cd0c41c18cb2c935d901997adc40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 07/42] fix: MACField::copyMAC did not compile when
 instantiated

---
 export/MACField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..636149e 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -249,7 +249,7 @@ public:
   //! be re-implemented using proper iterators over the field
   void copyMAC(typename MACField::Ptr other)
   {
-    matchDefinition(other);
+    this->matchDefinition(other);
     std::copy(other->m_u.begin(), other->m_u.end(), m_u.begin());
     std::copy(other->m_v.begin(), other->m_v.end(), m_v.begin());
     std::copy(other->m_w.begin(), other->m_w.end(), m_w.begin());
-- 
2.43.0


From 970f8d607265cf15042beed092a06f08d998b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 08/42] fix: assigning a field shared its mapping with the
 source

---
 export/Field.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/export/Field.h b/export/Field.h
index 51fd35d..ff959d1 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -240,6 +240,11 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator
+  //! \note Like the copy constructor this clones the mapping, so that the two
+  //! fields don't share one
+  FieldRes& operator=(const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -339,7 +344,17 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator=(const FieldRes &src)
+{
+  FieldBase::operator=(src);
+  m_extents = src.m_extents;
+  m_dataWindow = src.m_dataWindow;
   m_mapping = src.mapping()->clone();
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 3d582cc7b5dbff82f8441af236575c424c5afbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 09/42] fix: SparseField iterators over an empty box looked up
 a block outside the field

---
 export/SparseField.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index 6e19970..88a7859 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1058,6 +1058,11 @@ private:
 
   void setupNextBlock(int i, int j, int k)
   {
+    // There are no blocks to traverse in an empty window
+    if (m_window.isEmpty()) {
+      m_isEmptyBlock = true;
+      return;
+    }
     m_field->applyDataWindowOffset(i, j, k);
     m_field->getBlockCoord(i, j, k, m_blockI, m_blockJ, m_blockK);
     int oldBlockId = m_blockId;
@@ -1229,6 +1234,11 @@ private:
   //! Convenience
   void setupNextBlock(int i, int j, int k)
   {
+    // There are no blocks to traverse in an empty window
+    if (m_window.isEmpty()) {
+      m_isEmptyBlock = true;
+      return;
+    }
     m_field->applyDataWindowOffset(i, j, k);
     m_field->getBlockCoord(i, j, k, m_blockI, m_blockJ, m_blockK);
     m_blockId = m_field->blockId(m_blockI, m_blockJ, m_blockK);
-- 
2.43.0


From b2dd8aefbfd0d3f1cb1d69d48702d736e7fee694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 10/42] fix: FileSequence: a sequence string without a start or
 end frame describes no files

A missing start ("a-5#.f3d"), a missing end ("a0-#.f3d") or a mark in the first
position made the index arithmetic wrap or an empty number read as 0, giving
made-up file names instead of the documented 0-length sequence.
---
 src/FileSequence.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/FileSequence.cpp b/src/FileSequence.cpp
index d5ca07c..6ac599d 100644
--- a/src/FileSequence.cpp
+++ b/src/FileSequence.cpp
@@ -95,7 +95,9 @@ FileSequence::FileSequence(const std::string &sequence)
   }
 
   // Get the end range index
-  size_t seqEndIdx = sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
+  // (a mark that comes first has nothing in front of it)
+  size_t seqEndIdx = seqMarkIdx == 0 ? npos : 
+    sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
   if (seqEndIdx == npos) {
     std::stringstream warning;
     warning << "Sequence mark but no sequence range in filename: " 
@@ -122,9 +124,19 @@ FileSequence::FileSequence(const std::string &sequence)
     return;     
   }
 
+  // Make sure there is a sequence end between the '-' and the mark
+  if (seqEndIdx == seqMarkIdx) {
+    std::stringstream warning;
+    warning << "No sequence end in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
+
   // Get the start range index
-  size_t seqStartIdx = sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
-  if (seqStartIdx == npos) {
+  size_t seqStartIdx = seqEndIdx < 2 ? npos : 
+    sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
+  if (seqStartIdx == npos || seqStartIdx == seqEndIdx - 2) {
     std::stringstream warning;
     warning << "No sequence start in filename: " 
             << sequence;
-- 
2.43.0


From 6094d3bed8d962dc35e9b37590d53d23bd116d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 11/42] fix: Ogawa groups: empty data was stored twice,
 shifting the later children

---
 src/OGroup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..1cc5eb9 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -105,7 +105,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iSize, const void * iData)
 
     if (iSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
@@ -151,7 +150,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iNumData,
 
     if (totalSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
-- 
2.43.0


From b582455b30ca3b0d779eaae9b010c7ef4d081e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 12/42] fix: Ogawa attributes: find by exact name and data type

---
 include/OgIGroup.h |  7 ++++++-
 src/OgIGroup.cpp   | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/include/OgIGroup.h b/include/OgIGroup.h
index d9e3875..72ae4b6 100644
--- a/include/OgIGroup.h
+++ b/include/OgIGroup.h
@@ -97,6 +97,10 @@ private:
 
   // Utility methods -----------------------------------------------------------
 
+  //! Finds an ogawa-level attribute group of the given name and data type.
+  Alembic::Ogawa::IGroupPtr findAttribute(const std::string &name,
+                                          const OgDataType dataType) const;
+
   //! Finds an ogawa-level group
   Alembic::Ogawa::IGroupPtr findGroup(const std::string &name,
                                       const OgGroupType groupType) const;
@@ -120,7 +124,8 @@ private:
 template <typename T>
 OgIAttribute<T> OgIGroup::findAttribute(const std::string &name) const
 {
-  Alembic::Ogawa::IGroupPtr group = findGroup(name, F3DAttributeType);
+  Alembic::Ogawa::IGroupPtr group = 
+    findAttribute(name, OgawaTypeTraits<T>::typeEnum());
 
   if (group) {
     return OgIAttribute<T>(group);
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..efe583d 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -76,6 +76,45 @@ OgIGroup OgIGroup::findGroup(const std::string &name) const
 
 //----------------------------------------------------------------------------//
 
+Alembic::Ogawa::IGroupPtr 
+OgIGroup::findAttribute(const std::string &name,
+                        const OgDataType dataType) const
+{
+  // If not valid, return non-valid group
+  if (!isValid()) {
+    return Alembic::Ogawa::IGroupPtr();
+  }
+  // Attributes of different types may share a name, and the name may 
+  // contain '/', so look for an exact match first.
+  bool foundName = false;
+  for (size_t i = OGAWA_START_ID, end = m_group->getNumChildren(); 
+       i < end; ++i) {
+    if (!m_group->isChildGroup(i)) {
+      continue;
+    }
+    Alembic::Ogawa::IGroupPtr group = 
+      m_group->getGroup(i, false, OGAWA_THREAD);
+    std::string groupName;
+    OgGroupType type;
+    if (!readString(group, 0, groupName) || !readData(group, 1, type)) {
+      return Alembic::Ogawa::IGroupPtr();
+    }
+    if (type == F3DAttributeType && groupName == name) {
+      foundName = true;
+      if (readDataType(group, 2) == dataType) {
+        return group;
+      }
+    }
+  }
+  if (foundName) {
+    return Alembic::Ogawa::IGroupPtr();
+  }
+  // The name may be a full path
+  return findGroup(name, F3DAttributeType);
+}
+
+//----------------------------------------------------------------------------//
+
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::findGroup(const std::string &path,
                     const OgGroupType groupType) const
-- 
2.43.0


From b0cccbbac6cce9d87381bdf4cb42f85d79f57e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 13/42] fix: report failure when a layer could not be written

---
 src/Field3DFile.cpp | 10 ++++++++--
 src/MACFieldIO.cpp  |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..3ea0867 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1497,10 +1497,16 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   OgOGroup ogMetadata(ogLayer, "metadata");
 
   // Write metadata
-  writeMetadata(ogMetadata, field);
+  if (!writeMetadata(ogMetadata, field)) {
+    Msg::print(Msg::SevWarning, "Error writing metadata.");
+    return false;
+  }
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Error writing layer: " + layerName);
+    return false;
+  }
 
   // Add to partition
 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..b4063ef 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,8 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  // Not supported by the Ogawa format
+  return false;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From c74ef7fe294472ea65a18b0ae412800469403514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 14/42] fix: FrustumFieldMapping(extents) left the slice
 distribution uninitialized

---
 src/FieldMapping.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index b1f1a1f..1cf54d5 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -431,7 +431,9 @@ FrustumFieldMapping::FrustumFieldMapping()
 //----------------------------------------------------------------------------//
 
 FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
-  : FieldMapping(extents)
+  : FieldMapping(extents),
+    m_zDistribution(PerspectiveDistribution),
+    m_defaultState(true)
 { 
   reset();
 }
-- 
2.43.0


From 3280ee0ac896540de437b376adfb7e1ad88e6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 15/42] fix: FrustumFieldMapping kept its default
 screen-to-world sample

---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 1cf54d5..3e14c66 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -788,6 +788,7 @@ void FrustumFieldMapping::getLocalToVoxelMatrix(M44d &result)
 
 void FrustumFieldMapping::clearCurves()
 {
+  m_ssToWsCurve.clear();
   m_lpsToWsCurve.clear();
   m_csToWsCurve.clear();
   m_nearCurve.clear();
-- 
2.43.0


From f559e1ca357cd088a164f2ec50c4beb80f5702d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 16/42] fix: MatrixFieldMapping::isIdentical ignored shear

---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 3e14c66..48eddaa 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -97,6 +97,7 @@ namespace {
       return false;
     }
     if (!s1.equalWithRelError(s2, tolerance) ||
+        !sh1.equalWithAbsError(sh2, tolerance) ||
         !r1.equalWithAbsError(r2, tolerance) ||
         !t1.equalWithRelError(t2, tolerance)) {
       return false;
-- 
2.43.0


From 3caf806c33110ac3a6277dfb6ac929cb89260b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 17/42] fix: frustum voxel size: update it with the slice
 distribution, and handle a single slice

---
 export/FieldMapping.h |  2 +-
 src/FieldMapping.cpp  | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/export/FieldMapping.h b/export/FieldMapping.h
index b8d1d06..b6b41d8 100644
--- a/export/FieldMapping.h
+++ b/export/FieldMapping.h
@@ -624,7 +624,7 @@ public:
 
   //! Sets the z slice distribution
   void setZDistribution(ZDistribution dist)
-  { m_zDistribution = dist; }
+  { m_zDistribution = dist; computeVoxelSize(); }
   //! Returns the z slice distribution
   ZDistribution zDistribution() const
   { return m_zDistribution; }
diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 48eddaa..2693036 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -769,6 +769,18 @@ void FrustumFieldMapping::computeVoxelSize()
   // against
   if (m_res.z >= 2) {
     m_wsVoxelSize[static_cast<int>(m_res.z - 1)] = m_wsVoxelSize[static_cast<int>(m_res.z - 2)];
+  } else {
+    // A single slice has no neighbor, so measure the slice itself in Z
+    V3d wsP, wsPx, wsPy, wsNear, wsFar;
+    V3d vsP = discToCont(V3i(i, j, zMin));
+    voxelToWorld(vsP, wsP);
+    voxelToWorld(discToCont(V3i(i + 1, j, zMin)), wsPx);
+    voxelToWorld(discToCont(V3i(i, j + 1, zMin)), wsPy);
+    voxelToWorld(V3d(vsP.x, vsP.y, zMin), wsNear);
+    voxelToWorld(V3d(vsP.x, vsP.y, zMin + 1), wsFar);
+    m_wsVoxelSize[0] = V3d((wsPx - wsP).length(), 
+                           (wsPy - wsP).length(),
+                           (wsFar - wsNear).length());
   }
 
 }
-- 
2.43.0


From 9d4e74c41e2030cd04a2797dcb820d853a3eacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 18/42] fix: frustum mappings read from Ogawa files lost their
 transforms

---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From 2aa9adbf1b2339f453f73c21f654ae0f9f777dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 19/42] fix: sparse field writer published its write turn step
 by step, so a thread could miss its turn

---
 src/SparseFieldIO.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..2dc53ca 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -199,6 +199,7 @@ struct ThreadingState
   size_t nextBlockToWrite;
   // Mutexes
   boost::mutex compressMutex;
+  boost::mutex writeMutex;
 };
 
 //----------------------------------------------------------------------------//
@@ -254,20 +255,25 @@ public:
           return;
         }
         // Wait to write data
-        while (m_state.nextBlockToWrite != blockIdx) {
+        while (!isMyTurn(blockIdx)) {
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
         // Do the writing
         m_state.data.addData(cmpLen, &m_cache[0]);
-        // Let next block write
-        m_state.nextBlockToWrite++;
-        while (m_state.nextBlockToWrite < m_state.numBlocks){
+        // Let next block write. The other threads watch the counter, so it
+        // must go straight from this block to the next one in use.
+        size_t nextBlock = blockIdx + 1;
+        while (nextBlock < m_state.numBlocks) {
           // Increment to next
-          if (m_state.blocks[m_state.nextBlockToWrite].isAllocated) {
+          if (m_state.blocks[nextBlock].isAllocated) {
             break;
           }
-          m_state.nextBlockToWrite++;
+          nextBlock++;
+        }
+        {
+          boost::mutex::scoped_lock lock(m_state.writeMutex);
+          m_state.nextBlockToWrite = nextBlock;
         }
       }
       // Get next block idx
@@ -285,6 +291,12 @@ public:
     }
   }
 private:
+  // Utility methods ---
+  bool isMyTurn(const size_t blockIdx) const
+  {
+    boost::mutex::scoped_lock lock(m_state.writeMutex);
+    return m_state.nextBlockToWrite == blockIdx;
+  }
   // Data members ---
   ThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
-- 
2.43.0


From e24b993fb1b48f3b42bdc0d14f410169a9ff3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 20/42] fix: writing a demand-loaded sparse field read blocks
 that were not in memory, and a failed block hung the writer

---
 src/SparseFieldIO.cpp | 65 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 2dc53ca..4c266a6 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -161,21 +161,54 @@ private:
 
 //----------------------------------------------------------------------------//
 
+//! Keeps one block of a field in memory for as long as the instance lives.
+//! Only matters for dynamically loaded fields, whose blocks may be on disk.
+template <typename Data_T>
+class ScopedBlock
+{
+public:
+  ScopedBlock(const SparseField<Data_T> &field, const int blockIdx)
+    : m_field(field), m_blockIdx(blockIdx)
+  {
+    if (m_field.isDynamicLoad()) {
+      m_field.incBlockRef(m_blockIdx);
+      m_field.activateBlock(m_blockIdx);
+    }
+  }
+  ~ScopedBlock()
+  {
+    if (m_field.isDynamicLoad()) {
+      m_field.decBlockRef(m_blockIdx);
+    }
+  }
+private:
+  ScopedBlock(const ScopedBlock &);
+  ScopedBlock &operator=(const ScopedBlock &);
+  // Data members ---
+  const SparseField<Data_T> &m_field;
+  const int m_blockIdx;
+};
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ThreadingState
 {
   ThreadingState(OgOCDataset<Data_T> &i_data, 
+                 const SparseField<Data_T> &i_field,
                  Sparse::SparseBlock<Data_T> *i_blocks, 
                  const size_t i_numVoxels, 
                  const size_t i_numBlocks,
                  const std::vector<uint8_t> &i_isAllocated)
     : data(i_data),
+      field(i_field),
       blocks(i_blocks),
       numVoxels(i_numVoxels), 
       numBlocks(i_numBlocks),
       isAllocated(i_isAllocated), 
       nextBlockToCompress(0),
-      nextBlockToWrite(0)
+      nextBlockToWrite(0),
+      failed(false)
   { 
     // Find first in-use block
     for (size_t i = 0; i < numBlocks; ++i) {
@@ -191,12 +224,14 @@ struct ThreadingState
   }
   // Data members
   OgOCDataset<Data_T> &data;
+  const SparseField<Data_T> &field;
   Sparse::SparseBlock<Data_T> *blocks;
   const size_t numVoxels;
   const size_t numBlocks;
   const std::vector<uint8_t> isAllocated;
   size_t nextBlockToCompress;
   size_t nextBlockToWrite;
+  bool failed;
   // Mutexes
   boost::mutex compressMutex;
   boost::mutex writeMutex;
@@ -234,16 +269,20 @@ public:
     // Loop over blocks until we run out
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
-        // Block data as bytes
-        const uint8_t *srcData = 
-          reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
         // Length of compressed data is stored here
         const uLong srcLen      = m_state.numVoxels * sizeof(Data_T);
         const uLong cmpLenBound = compressBound(srcLen);
         uLong cmpLen            = cmpLenBound;
         // Perform compression
-        const int status = compress2(&m_cache[0], &cmpLen, 
-                                     srcData, srcLen, level);
+        int status;
+        {
+          // Make sure the block is in memory while it is being compressed
+          ScopedBlock<Data_T> scopedBlock(m_state.field, blockIdx);
+          // Block data as bytes
+          const uint8_t *srcData = 
+            reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
+          status = compress2(&m_cache[0], &cmpLen, srcData, srcLen, level);
+        }
         // Error check
         if (status != Z_OK) {
           std::cout << "ERROR: Couldn't compress in SparseFieldIO." << std::endl
@@ -252,7 +291,6 @@ public:
                     << "  srcLen: " << srcLen << std::endl
                     << "  cmpLenBound: " << cmpLenBound << std::endl
                     << "  cmpLen: " << cmpLen << std::endl;
-          return;
         }
         // Wait to write data
         while (!isMyTurn(blockIdx)) {
@@ -260,7 +298,11 @@ public:
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
         // Do the writing
-        m_state.data.addData(cmpLen, &m_cache[0]);
+        if (status == Z_OK) {
+          m_state.data.addData(cmpLen, &m_cache[0]);
+        } else {
+          m_state.failed = true;
+        }
         // Let next block write. The other threads watch the counter, so it
         // must go straight from this block to the next one in use.
         size_t nextBlock = blockIdx + 1;
@@ -1030,6 +1072,8 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
             "Couldn't select slab " + 
             boost::lexical_cast<std::string>(nextBlockIdx));
         }
+        // Make sure the block is in memory while it is being written
+        ScopedBlock<Data_T> scopedBlock(*field, i);
         Data_T *data = field->m_blocks[i].data;
         status = H5Dwrite(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                           memDataSpace.id(), 
@@ -1125,7 +1169,7 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
   // Write data if there is any
   if (occupiedBlocks > 0) {
     // Threading state
-    ThreadingState<Data_T> state(data, blocks, numVoxels, numBlocks, 
+    ThreadingState<Data_T> state(data, *field, blocks, numVoxels, numBlocks, 
                                  isAllocated);
     // Number of threads
     const size_t numThreads = numIOThreads();
@@ -1135,6 +1179,9 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
       threads.create_thread(WriteBlockOp<Data_T>(state, i));
     }
     threads.join_all();
+    if (state.failed) {
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 4fb1173a42efeb54810c67a60510b8d20ac79dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 21/42] fix: dense fields of one scalar voxel could not be
 written to HDF5

---
 src/DenseFieldIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..0e05aae 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -390,7 +390,8 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  const hsize_t chunkSize = 
+    std::max(std::min(preferredChunkSize, totalSize[0] / 2), hsize_t(1));
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From 590e07da43f7cbb51428e3736546b4c5a1d1848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 22/42] fix: Ogawa header of an unknown version was treated as
 valid and crashed the reader

---
 src/IStreams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..459aed9 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -105,6 +105,7 @@ IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         filestream->close();
         delete filestream;
@@ -125,6 +126,7 @@ IStreams::IStreams(const std::vector< std::istream * > & iStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         return;
     }
-- 
2.43.0


From f3a21a58374bc61f609fe858fdccd3cdc827066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 23/42] fix: an output file object that had written one file
 mixed it up with the next one it created

---
 src/Field3DFile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 3ea0867..c4e3edd 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -976,6 +976,13 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  // Close whatever file was being written, in either format, and start the
+  // partition numbering over
+  closeInternal();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_partitionCount.clear();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
@@ -983,8 +990,6 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return m_hdf5->create(filename, Field3DOutputFileHDF5::CreateMode(ccm));
   }
 
-  closeInternal();
-
   if (cm == FailOnExisting && fileExists(filename)) {
     return false;
   }
-- 
2.43.0


From d1c91b846c200af081b5ad9e9634465e8eb77c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 24/42] fix: an input file object kept reporting the HDF5 file
 or the metadata it had opened before

---
 src/Field3DFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index c4e3edd..1b0e743 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -715,6 +715,12 @@ bool Field3DInputFile::open(const string &filename)
 {
   clear();
 
+  // Forget the HDF5 file that may have been open, and its or our metadata
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  clear();
+  m_metadata = FieldMetadata(this);
+
   bool success = true;
 
   // Record filename
-- 
2.43.0


From 5b63f6ae04668902f3ac618e7a6665f111c51f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 25/42] fix: a mapping changed after its layer was written was
 taken for the one in the file

---
 export/Field3DFileHDF5.h | 5 +++--
 src/Field3DFile.cpp      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 98c6e0b..aa17072 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1427,8 +1427,9 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
 
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
-  // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  // additions to the same partition are checked to have the same mapping.
+  // It must be a copy, as the field's own may be changed after it was written.
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 1b0e743..14f0a1e 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1402,8 +1402,9 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
-  // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  // additions to the same partition are checked to have the same mapping.
+  // It must be a copy, as the field's own may be changed after it was written.
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
-- 
2.43.0


From 09d037b6a2c5fd6b764c2377a3d85b50b453ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 26/42] fix: HDF5 layers written without a partition swapped
 layer and partition names

---
 export/Field3DFileHDF5.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index aa17072..2f2ec2a 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -794,13 +794,13 @@ public:
   template <class Data_T>
   bool writeScalarLayer(const std::string &layerName, 
                         typename Field<Data_T>::Ptr layer)
-  { return writeScalarLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeScalarLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a vector layer to the "Default" partition.
   template <class Data_T>
   bool writeVectorLayer(const std::string &layerName, 
                         typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
-  { return writeVectorLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeVectorLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a layer to a specific partition. The partition will be created if
   //! not specified.
-- 
2.43.0


From d9d33992a7979319d285540269885fb13b58d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 27/42] fix: HDF5 files refused a scalar and a vector layer of
 the same name

---
 export/Field3DFileHDF5.h | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 2f2ec2a..2156b1c 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1489,22 +1489,12 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     
     // If the partition already existed, we need to make sure that the layer
     // doesn't also exist
-    if (!isVectorLayer) {
-      if (part->scalarLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
-    } else {
-      if (part->vectorLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
+    if (part->scalarLayer(layerName) || part->vectorLayer(layerName)) {
+      //need to create a new partition and then add the layer to that
+      std::string newPartitionName = incrementPartitionName(partitionName);
+      part = createNewPartition<Data_T>(newPartitionName,layerName,field);
+      if (!part)
+        return false;
     }
   }
 
-- 
2.43.0


From 55654bc5e12d3abd7102725267707b1c971dca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 28/42] fix: an Ogawa layer named "mapping" was reported
 written and then lost

---
 src/Field3DFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 14f0a1e..fad636b 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1438,6 +1438,14 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // The partition's mapping is kept in a group next to its layers
+  if (layerName == k_mappingStr) {
+    Msg::print(Msg::SevWarning, 
+               "Couldn't add layer \"" + layerName + 
+               "\" because the name is reserved.");
+    return false;
+  }
+
   // Get the partition name
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
-- 
2.43.0


From 9e26c9a4f78fd6cec39e26e8ed79df6c37f1c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 29/42] fix: an Ogawa layer that could not be written hid a
 later one of the same name

---
 src/Field3DFile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index fad636b..1a8380d 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1510,6 +1510,10 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
 
   OgOGroup ogLayer(ogPartition, layerName);
 
+  // Add to partition. Even if the writing below fails, the name is taken.
+
+  part->addLayer(layer);
+
   // Tag as layer
   OgOAttribute<string> classType(ogLayer, "class_type", "field3d_layer");
 
@@ -1528,10 +1532,6 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
-  // Add to partition
-
-  part->addLayer(layer);
-
   return true;
 }
 
-- 
2.43.0


From dbfaf2ff925a7b36086c9576070333a819f198f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 30/42] fix: the generic layer calls ignored the HDF5 file
 behind the file object

---
 src/Field3DFile.cpp | 52 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 1a8380d..0daf666 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1417,6 +1417,45 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 // Template implementations
 //----------------------------------------------------------------------------//
 
+namespace {
+
+  //! The HDF5 files tell scalar from vector layers by the name of the call, 
+  //! and the vector calls are templated on the component type.
+  template <class Data_T>
+  struct HDF5Layers
+  {
+    typedef typename Field<Data_T>::Vec Vec;
+    static bool write(Field3DOutputFileHDF5 &file, const std::string &partition,
+                      const std::string &layer, 
+                      typename Field<Data_T>::Ptr field)
+    { return file.writeScalarLayer<Data_T>(partition, layer, field); }
+    static Vec read(const Field3DInputFileHDF5 &file, const std::string &layer)
+    { return file.readScalarLayers<Data_T>(layer); }
+    static Vec read(const Field3DInputFileHDF5 &file, 
+                    const std::string &partition, const std::string &layer)
+    { return file.readScalarLayers<Data_T>(partition, layer); }
+  };
+
+  template <class Data_T>
+  struct HDF5Layers<FIELD3D_VEC3_T<Data_T> >
+  {
+    typedef FIELD3D_VEC3_T<Data_T> Vec_T;
+    typedef typename Field<Vec_T>::Vec Vec;
+    static bool write(Field3DOutputFileHDF5 &file, const std::string &partition,
+                      const std::string &layer, 
+                      typename Field<Vec_T>::Ptr field)
+    { return file.writeVectorLayer<Data_T>(partition, layer, field); }
+    static Vec read(const Field3DInputFileHDF5 &file, const std::string &layer)
+    { return file.readVectorLayers<Data_T>(layer); }
+    static Vec read(const Field3DInputFileHDF5 &file, 
+                    const std::string &partition, const std::string &layer)
+    { return file.readVectorLayers<Data_T>(partition, layer); }
+  };
+
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 bool Field3DOutputFile::writeLayer(const std::string &userPartitionName, 
                                    const std::string &layerName, 
@@ -1424,6 +1463,11 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
 {
   using std::string;
 
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::write(*m_hdf5, userPartitionName, layerName, 
+                                     field);
+  }
+
   // Null pointer check
   if (!field) {
     Msg::print(Msg::SevWarning,
@@ -1638,6 +1682,10 @@ Field3DInputFile::readLayers(const std::string &name) const
 
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
+
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::read(*m_hdf5, name);
+  }
   
   FieldList ret;
   std::vector<std::string> parts;
@@ -1672,6 +1720,10 @@ Field3DInputFile::readLayers(const std::string &partitionName,
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
 
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::read(*m_hdf5, partitionName, layerName);
+  }
+
   FieldList ret;
 
   if ((layerName.length() == 0) || (partitionName.length() == 0))
-- 
2.43.0


From de1162c18b34341cc7d29f79efab2b13feb22762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 31/42] fix: a layer without extents made proxy queries throw
 or crash

---
 export/Field3DFileHDF5.h |  3 +++
 src/Field3DFile.cpp      | 19 +++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 2156b1c..91decd0 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1215,6 +1215,9 @@ Field3DInputFileHDF5::readProxyLayer(const std::string &partitionName,
           typename EmptyField<Data_T>::Ptr field = 
             readProxyLayer<Data_T>(layerGroup, partitionName, layerName, 
                                    part->mapping);
+          if (!field) {
+            continue;
+          }
 
           // Read MIPField's number of mip levels
           int numLevels = 0;
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 0daf666..e6248a2 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1779,12 +1779,12 @@ Field3DInputFile::readProxyLayer(OgIGroup &location,
   OgIAttribute<veci32_t> extMaxAttr = 
     location.findAttribute<veci32_t>(extentsMaxStr);
   if (!extMinAttr.isValid()) {
-    throw MissingAttributeException("Couldn't find attribute " + 
-                                    extentsMinStr);
+    Msg::print(Msg::SevWarning, "Couldn't find attribute " + extentsMinStr);
+    return null;
   }
   if (!extMaxAttr.isValid()) {
-    throw MissingAttributeException("Couldn't find attribute " + 
-                                    extentsMaxStr);
+    Msg::print(Msg::SevWarning, "Couldn't find attribute " + extentsMaxStr);
+    return null;
   }
 
   extents.min = extMinAttr.value();
@@ -1797,12 +1797,12 @@ Field3DInputFile::readProxyLayer(OgIGroup &location,
   OgIAttribute<veci32_t> dwMaxAttr = 
     location.findAttribute<veci32_t>(dataWindowMaxStr);
   if (!dwMinAttr.isValid()) {
-    throw MissingAttributeException("Couldn't find attribute " + 
-                                    dataWindowMinStr);
+    Msg::print(Msg::SevWarning, "Couldn't find attribute " + dataWindowMinStr);
+    return null;
   }
   if (!dwMaxAttr.isValid()) {
-    throw MissingAttributeException("Couldn't find attribute " + 
-                                    dataWindowMaxStr);
+    Msg::print(Msg::SevWarning, "Couldn't find attribute " + dataWindowMaxStr);
+    return null;
   }
 
   dataW.min = dwMinAttr.value();
@@ -1901,6 +1901,9 @@ Field3DInputFile::readProxyLayer(const std::string &partitionName,
           typename EmptyField<Data_T>::Ptr field = 
             readProxyLayer<Data_T>(layerGroup, partitionName, layerName, 
                                    part->mapping);
+          if (!field) {
+            continue;
+          }
 
           // Read MIPField's number of mip levels
           int numLevels = 0;
-- 
2.43.0


From 69e4336f24a899d932f3943a70c811cd5a9ab24c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 32/42] fix: an Ogawa file that was interrupted or cut short
 opened as an empty one

Reads beyond the end of the file went unnoticed and left the stream unusable,
group tables could be sized by a number that was never read, and the completion
mark the writer leaves was not looked at.
---
 include/IStreams.h  |  2 +-
 src/Field3DFile.cpp | 12 ++++++++++++
 src/IGroup.cpp      | 27 ++++++++++++++++++++++++---
 src/IStreams.cpp    | 13 ++++++++-----
 4 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/include/IStreams.h b/include/IStreams.h
index 3383b88..1bf2f95 100644
--- a/include/IStreams.h
+++ b/include/IStreams.h
@@ -56,7 +56,7 @@ public:
     Alembic::Util::uint16_t getVersion();
 
     // locks on the threadId, seeks to iPos, and reads iSize bytes into oBuf
-    void read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
+    bool read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
               Alembic::Util::uint64_t iSize, void * oBuf);
 
 private:
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6248a2..a48d278 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -746,8 +746,20 @@ bool Field3DInputFile::open(const string &filename)
       }
     }
 
+    // A file whose writer never finished, or that was cut short, 
+    // is not readable
+    if (!m_archive->isFrozen()) {
+      Msg::print(Msg::SevWarning, "File was not completely written.");
+      throw BadFileHierarchyException(filename);
+    }
+
     // Grab the root group
     m_root.reset(new OgIGroup(*m_archive));
+
+    if (!m_root->isValid()) {
+      Msg::print(Msg::SevWarning, "File is incomplete.");
+      throw BadFileHierarchyException(filename);
+    }
     
     // Check version number
     try {
diff --git a/src/IGroup.cpp b/src/IGroup.cpp
index 476914e..f1389c7 100644
--- a/src/IGroup.cpp
+++ b/src/IGroup.cpp
@@ -74,7 +74,12 @@ IGroup::IGroup(IStreamsPtr iStreams,
     }
 
     mData->pos = iPos;
-    mData->streams->read(iThreadIndex, iPos, 8, &mData->numChildren);
+    if (!mData->streams->read(iThreadIndex, iPos, 8, &mData->numChildren))
+    {
+        // the group isn't (entirely) in the stream
+        mData->numChildren = 0;
+        return;
+    }
 
     // 0 should NOT have been written, this groups should have been the
     // special EMPTY_GROUP instead
@@ -83,9 +88,25 @@ IGroup::IGroup(IStreamsPtr iStreams,
     // children
     if (!iLight || mData->numChildren < 9)
     {
+        // don't make room for more children than there are in the stream
+        Alembic::Util::uint64_t last = 0;
+        if ((mData->numChildren >> 60) != 0 ||
+            (mData->numChildren != 0 &&
+             !mData->streams->read(iThreadIndex,
+                                   iPos + mData->numChildren * 8, 8, &last)))
+        {
+            mData->numChildren = 0;
+            return;
+        }
+
         mData->childVec.resize(mData->numChildren);
-        mData->streams->read(iThreadIndex, iPos + 8, mData->numChildren * 8,
-                             &(mData->childVec.front()));
+        if (!mData->streams->read(iThreadIndex, iPos + 8,
+                                  mData->numChildren * 8,
+                                  &(mData->childVec.front())))
+        {
+            mData->childVec.clear();
+            mData->numChildren = 0;
+        }
     }
 }
 
diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index 459aed9..7773f13 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -163,7 +163,7 @@ void IStreams::init()
         mData->offsets.push_back(mData->streams[i]->tellg());
         mData->streams[i]->read(header, 16);
         std::string magicStr(header, 5);
-        if (magicStr != "Ogawa")
+        if (!mData->streams[i]->good() || magicStr != "Ogawa")
         {
             mData->frozen = false;
             mData->valid = false;
@@ -213,12 +213,12 @@ Alembic::Util::uint16_t IStreams::getVersion()
     return mData->version;
 }
 
-void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
+bool IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                     Alembic::Util::uint64_t iSize, void * oBuf)
 {
     if (!isValid())
     {
-        return;
+        return false;
     }
 
     std::size_t threadId = 0;
@@ -251,13 +251,16 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                 // read from thread 0 instead until it can be opened
                 if (threadId != 0)
                 {
-                    read(0, iPos, iSize, oBuf);
+                    return read(0, iPos, iSize, oBuf);
                 }
-                return;
+                return false;
             }
         }
+        // an earlier read beyond the end of the stream must not fail this one
+        stream->clear();
         stream->seekg(iPos + mData->offsets[threadId]);
         stream->read((char *)oBuf, iSize);
+        return stream->good();
     }
 }
 
-- 
2.43.0


From df0913798c27e2acd4f3b286c86193e23ead6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 33/42] fix: two owners letting go of an object at once could
 both delete it

---
 export/RefCount.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..ec537db 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,14 +156,16 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \return The number of references that are left. Only the caller that 
+  //! dropped the last one gets zero.
+  long unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
+    return --m_counter; 
   }
   
   // Cache handling ------------------------------------------------------------
@@ -238,9 +240,7 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From 227c52db8e2c924895db3a06ec8d9e9e619a23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 34/42] fix: the field cache could hand out a field that was
 being destroyed

---
 export/FieldCache.h | 30 +++++++++++++++++++++---------
 export/RefCount.h   | 40 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/export/FieldCache.h b/export/FieldCache.h
index cecfd72..0f96f24 100644
--- a/export/FieldCache.h
+++ b/export/FieldCache.h
@@ -115,6 +115,9 @@ private:
   std::string key(const std::string &filename,
                   const std::string &layerPath);
 
+  //! Returns the field of an entry, if it is still in memory. Null otherwise.
+  static FieldPtr liveField(const CacheEntry &entry);
+
   // Data members -------------------------------------------------------------
 
   //! The cache itself. Maps a 'key' to a weak pointer and a raw pointer.
@@ -155,12 +158,23 @@ FieldCache<Data_T>::getCachedField(const std::string &filename,
     return FieldPtr();
   }
   // Next, check if all weak_ptrs are valid
-  CacheEntry &entry = i->second;
-  WeakPtr weakPtr = entry.first;
-  if (weakPtr.expired()) {
+  return liveField(i->second);
+}
+
+//----------------------------------------------------------------------------//
+
+template <typename Data_T>
+typename FieldCache<Data_T>::FieldPtr 
+FieldCache<Data_T>::liveField(const CacheEntry &entry)
+{
+  // Another thread may be about to delete the field. It can't do so until 
+  // the mutex is unlocked.
+  boost::mutex::scoped_lock lock(RefBase::expireMutex());
+  if (entry.first.expired() || !entry.second->refIfAlive()) {
     return FieldPtr();
   }
-  return FieldPtr(entry.second);
+  // The reference has already been counted
+  return FieldPtr(entry.second, false);
 }
 
 //----------------------------------------------------------------------------//
@@ -185,12 +199,10 @@ long long int FieldCache<Data_T>::memSize() const
 
   BOOST_FOREACH (const typename Cache::value_type &i, m_cache) {
     // Check if pointer is valid
-    WeakPtr weakPtr = i.second.first;
-    if (weakPtr.expired()) {
-      continue;
-    } else {
+    FieldPtr field = liveField(i.second);
+    if (field) {
       // If valid, accumulate memory
-      memSize += i.second.second->memSize();
+      memSize += field->memSize();
     }
   }
 
diff --git a/export/RefCount.h b/export/RefCount.h
index ec537db..6bb8d3f 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -52,10 +52,9 @@
 #include <boost/shared_ptr.hpp>
 #include <boost/weak_ptr.hpp>
 
+#include <boost/thread/mutex.hpp>
 #ifdef FIELD3D_USE_ATOMIC_COUNT
 #include <boost/detail/atomic_count.hpp>
-#else
-#include <boost/thread/mutex.hpp>
 #endif
 
 #include <string.h>
@@ -173,6 +172,36 @@ public:
   WeakPtr weakPtr() const
   { return m_sharedPtr; }
 
+  //! Held while an object's weak pointers expire. With the mutex held, an
+  //! object whose weak pointer hasn't expired may be accessed.
+  static boost::mutex& expireMutex()
+  {
+    // Never destroyed, as objects with static storage may outlive it.
+    static boost::mutex *mutex = new boost::mutex;
+    return *mutex;
+  }
+
+  //! Used by boost::intrusive_pointer, once the last reference is gone
+  void expire()
+  {
+    boost::mutex::scoped_lock lock(expireMutex());
+    m_sharedPtr.reset();
+  }
+
+  //! For use by the FieldCache only, with expireMutex() held: 
+  //! Adds a reference, unless the last one is gone already.
+  bool refIfAlive() const
+  {
+#ifndef FIELD3D_USE_ATOMIC_COUNT
+    boost::mutex::scoped_lock lock(m_refMutex);
+#endif
+    if (++m_counter > 1) {
+      return true;
+    }
+    --m_counter;
+    return false;
+  }
+
   // RTTI replacement ----------------------------------------------------------
 
   /*! \note A note on why the RTTI replacement is needed:
@@ -235,13 +264,14 @@ intrusive_ptr_add_ref(RefBase* r)
 
 //----------------------------------------------------------------------------//
 
-//! \todo Communicate with the FieldCache to prevent any cache updates from
-//! happening while this releases its count.
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  if (r->unref() == 0)
+  if (r->unref() == 0) {
+    // From here on the FieldCache won't find the object
+    r->expire();
     delete r;
+  }
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 0b46969a2e857d392274433ed4c0026bdbc4436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 35/42] fix: other threads could use a MIP level before its
 name and mapping were set

MIPField::loadLevelFromDisk() published the raw level pointer, the
indicator of the double-checked locking, before it had synchronised the
level's name, attribute, metadata and mapping.
---
 export/MIPField.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..c60dc6c 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -697,8 +697,6 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
       }
       // Remove lazy load action
       m_loadActions[level].reset();
-      // Update aux data
-      updateAuxMembers();
       // Ensure metadata is up to date
       syncLevelInfo(level);
       // Update the mapping of the loaded field
@@ -707,6 +705,9 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
         detail::adjustedMIPFieldMapping(this, baseRes, 
                                         m_fields[level]->extents(), level);
       m_fields[level]->setMapping(mapping);
+      // Update aux data. This has to be the last step, because it is what
+      // tells other threads that the level is ready to use.
+      updateAuxMembers();
     }
   }
 }
-- 
2.43.0


From 6bc0964d933c22cc1082aa92331b015e11419c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 36/42] fix: assigning a lazily loaded MIPField kept levels of
 the previous contents

Levels that the other field had not loaded yet were left in place instead
of being loaded through its actions. Other threads may also be loading
levels of the other field, so hold its lock while copying.
---
 export/MIPField.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/export/MIPField.h b/export/MIPField.h
index c60dc6c..d848ace 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -353,6 +353,9 @@ template <class Field_T>
 const MIPField<Field_T>& 
 MIPField<Field_T>::init(const MIPField &rhs)
 {
+  // Other threads may be loading levels of the other field
+  const boost::shared_ptr<boost::mutex> rhsMutex(rhs.m_ioMutex);
+  boost::mutex::scoped_lock lock(*rhsMutex);
   // If any of the fields aren't yet loaded, we can rely on the same load 
   // actions as the other one
   m_loadActions = rhs.m_loadActions;
@@ -373,6 +376,9 @@ MIPField<Field_T>::init(const MIPField &rhs)
       } else {
         std::cerr << "MIPField::op=(): Failed to clone." << std::endl;
       }
+    } else {
+      // Our own previous level is no longer valid
+      m_fields[i].reset();
     }
     // Update the raw pointer
     m_rawFields[i] = m_fields[i].get();
-- 
2.43.0


From 91a9a5b0da451308f72184086b34f1d58b42fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 37/42] fix: MIPField without levels accessed its level vectors
 out of bounds

Setting the mapping of a cleared MIPField read the first of zero levels,
and copying a default constructed one wrote beyond its raw pointers.
---
 export/MIPField.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index d848ace..899cbdd 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -365,7 +365,7 @@ MIPField<Field_T>::init(const MIPField &rhs)
   // The contained fields must be individually cloned if they have already
   // been loaded
   m_fields.resize(rhs.m_fields.size());
-  m_rawFields.resize(rhs.m_rawFields.size());
+  m_rawFields.resize(m_fields.size());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
     // Update the field pointer
     if (rhs.m_fields[i]) {
@@ -559,7 +559,7 @@ void MIPField<Field_T>::mappingChanged()
   base::setMIPOffset(offset);
 
   V3i baseRes = base::dataWindow().size() + V3i(1);
-  if (m_fields[0]) {
+  if (!m_fields.empty() && m_fields[0]) {
     m_fields[0]->setMapping(base::mapping());
   }
   for (size_t i = 1; i < m_fields.size(); i++) {
-- 
2.43.0


From 2b5d42ca28b5ecd1846b190a527b6d68552354ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 38/42] fix: MIP levels of fields with an odd offset had the
 wrong resolution

The resolution of each level was derived from that of the base and the
offset of the previous level only. With an odd offset a level could miss
part of the base, hold a voxel that covers none of it, or be no smaller
than the previous level, in which case the construction threw. Use the
number of voxels of the new level that cover any voxel of the previous one.
---
 export/MIPUtil.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..e2fe401 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -431,13 +431,9 @@ namespace detail {
                   (offset.z % 2 == 0) ? 0 : 1);
 
     // Compute new res
-    const Box3i baseDw  = base.dataWindow();
-    const V3i   baseRes = baseDw.size() + V3i(1);
-    const V3i   newRes  = mipResolution(baseRes, level, add);
-
-    // Source res
     const Box3i srcDw  = src.dataWindow();
     const V3i   srcRes = srcDw.size() + V3i(1);
+    const V3i   newRes = (srcRes + add + V3i(1)) / 2;
 
     // Temporary field for y component
     Field_T tmp;
-- 
2.43.0


From 43e8a25a8aaeb8d0c1af4be1c798ef9982d49978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 39/42] fix: threads building a sparse MIP level could share a
 block of it

The work was divided by the block size of the source. When the target's
blocks are larger (a new field has the default block order), two threads
could allocate the same block at once and lose each other's voxels.
---
 export/MIPUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index e2fe401..62056bc 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -375,7 +375,7 @@ namespace detail {
     tgt.setSize(res);
     
     // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From 00ab0e7f1f8c9845d426f5668c952dd95b4a9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 40/42] fix: resampling left voxels of dense vector fields
 uninitialised

A result of zero is not written to the target, and vectors are not zeroed
by their default constructor, so the voxels of a new dense field kept
whatever was in memory.
---
 export/MIPUtil.h  | 1 +
 export/Resample.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 62056bc..3d6f6fb 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -373,6 +373,7 @@ namespace detail {
 
     // Resize new field
     tgt.setSize(res);
+    tgt.clear(typename Field_T::value_type(0.0));
     
     // Determine granularity
     const size_t blockSize = threadingBlockSize(tgt);
diff --git a/export/Resample.h b/export/Resample.h
index dd3abe9..b439875 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -426,6 +426,7 @@ namespace detail {
 
     // Resize the target
     tgt.setSize(newRes);
+    tgt.clear(T(0.0));
 
     // For each output voxel
     for (int k = 0; k < newRes.z; ++k) {
-- 
2.43.0


From d1a80021a5a8d0980c03a7ebb849ce0dbc8e66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 41/42] fix: MIP construction with a wide filter skipped blocks
 that are not empty

The test for empty input looked at half of the filter support, so blocks
whose only non-zero voxels are further away were left at zero in sparse
fields, unlike in dense ones.
---
 export/MIPUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 3d6f6fb..db216ef 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -138,7 +138,7 @@ namespace detail {
                        const Box3i &tgtBox, const float support,
                        const size_t dim)
   {
-    const int intSupport = static_cast<int>(std::ceil(support * 0.5));
+    const int intSupport = static_cast<int>(std::ceil(support));
     const int pad        = std::max(0, intSupport);
     Box3i     tgtBoxPad  = tgtBox;
     tgtBoxPad.min[dim]  -= pad;
-- 
2.43.0


From 3dd311d1d87c276a08f202ef50a319bb29eca6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 42/42] fix: resampling and MIP construction assumed a data
 window at the origin

makeMIP() read voxels outside the data window of a base field whose window
does not start at the origin, and resample() refused such fields, and
those only one voxel thick, without makeMinMax() noticing, so the pyramids
it returned were not built from the field. Index the source relative to
its data window.
---
 export/MIPUtil.h  | 28 +++++++++++++++++-----------
 export/Resample.h | 31 ++++++++++++++-----------------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index db216ef..6c43ca2 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -147,6 +147,10 @@ namespace detail {
     srcBoxPad.min[dim]  *= 2;
     srcBoxPad.max[dim]  *= 2;
 
+    // The target starts at the origin, but the source might not
+    srcBoxPad.min       += src.dataWindow().min;
+    srcBoxPad.max       += src.dataWindow().min;
+
     // Get the block coordinates
     const Box3i dbsBounds = blockCoords(clipBounds(srcBoxPad, src.dataWindow()),
                                         &src);
@@ -217,7 +221,9 @@ namespace detail {
       typedef typename ComputationType<Data_T>::type Value_T;
 
       // To ensure we don't sample outside source data
-      Box3i srcDw = m_src.dataWindow();
+      const Box3i srcDw  = m_src.dataWindow();
+      const V3i   srcMin = srcDw.min;
+      const int   srcMax = srcDw.max[m_dim] - srcMin[m_dim];
 
       // Coordinate frame conversion constants
       const float tgtToSrcMult    = 2.0;
@@ -255,14 +261,14 @@ namespace detail {
                     static_cast<int>(std::ceil(curSrc + support * 
                                                tgtToSrcMult)) - 1;
                   // Clamp coordinates
-                  startSrc     = std::max(startSrc, srcDw.min[m_dim]);
-                  endSrc       = std::min(endSrc, srcDw.max[m_dim]);
+                  startSrc     = std::max(startSrc, 0);
+                  endSrc       = std::min(endSrc, srcMax);
                   // Loop over source voxels
                   for (int s = startSrc; s <= endSrc; ++s) {
                     // Source index
-                    const int xIdx = m_dim == 0 ? s : i;
-                    const int yIdx = m_dim == 1 ? s : j;
-                    const int zIdx = m_dim == 2 ? s : k;
+                    const int xIdx = srcMin.x + (m_dim == 0 ? s : i);
+                    const int yIdx = srcMin.y + (m_dim == 1 ? s : j);
+                    const int zIdx = srcMin.z + (m_dim == 2 ? s : k);
                     // Source voxel in continuous coords
                     const float srcP   = discToCont(s);
                     // Compute filter weight in source space (twice as wide)
@@ -292,14 +298,14 @@ namespace detail {
                     static_cast<int>(std::ceil(curSrc + support * 
                                                tgtToSrcMult)) - 1;
                   // Clamp coordinates
-                  startSrc     = std::max(startSrc, srcDw.min[m_dim]);
-                  endSrc       = std::min(endSrc, srcDw.max[m_dim]);
+                  startSrc     = std::max(startSrc, 0);
+                  endSrc       = std::min(endSrc, srcMax);
                   // Loop over source voxels
                   for (int s = startSrc; s <= endSrc; ++s) {
                     // Source index
-                    const int xIdx = m_dim == 0 ? s : i;
-                    const int yIdx = m_dim == 1 ? s : j;
-                    const int zIdx = m_dim == 2 ? s : k;
+                    const int xIdx = srcMin.x + (m_dim == 0 ? s : i);
+                    const int yIdx = srcMin.y + (m_dim == 1 ? s : j);
+                    const int zIdx = srcMin.z + (m_dim == 2 ? s : k);
                     // Source voxel in continuous coords
                     const float srcP   = discToCont(s);
                     // Compute filter weight in source space (twice as wide)
diff --git a/export/Resample.h b/export/Resample.h
index b439875..4e44097 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -412,6 +412,7 @@ namespace detail {
   {
     typedef typename Field_T::value_type T;
 
+    const V3i   srcMin    = src.dataWindow().min;
     const V3i   srcRes    = src.dataWindow().size() + V3i(1);
     const float srcDomain = V3f(srcRes)[dim];
     const float tgtDomain = V3f(newRes)[dim];
@@ -441,19 +442,19 @@ namespace detail {
               srcSupportBBox(tgtP, support, doUpres, srcSize, tgtSize);
             // Clip against new data window
             srcInterval.first = 
-              std::max(srcInterval.first, src.dataWindow().min[dim]);
+              std::max(srcInterval.first, 0);
             srcInterval.second = 
-              std::min(srcInterval.second, src.dataWindow().max[dim]);
+              std::min(srcInterval.second, srcRes[dim] - 1);
             // For each input voxel
             for (int s = srcInterval.first; s <= srcInterval.second; ++s) {
               // Index
-              const int xIdx = dim == 0 ? s : i;
-              const int yIdx = dim == 1 ? s : j;
-              const int zIdx = dim == 2 ? s : k;
+              const int xIdx = srcMin.x + (dim == 0 ? s : i);
+              const int yIdx = srcMin.y + (dim == 1 ? s : j);
+              const int zIdx = srcMin.z + (dim == 2 ? s : k);
               // Value
               const T value = src.fastValue(xIdx, yIdx, zIdx);
               // Weights
-              const float srcP   = discToCont(V3i(xIdx, yIdx, zIdx)[dim]);
+              const float srcP   = discToCont(s);
               const float dist   = getDist(doUpres, srcP, tgtP, srcSize, tgtSize);
               const float weight = filterOp.eval(dist);
               // Update
@@ -474,19 +475,19 @@ namespace detail {
               srcSupportBBox(tgtP, support, doUpres, srcSize, tgtSize);
             // Clip against new data window
             srcInterval.first = 
-              std::max(srcInterval.first, src.dataWindow().min[dim]);
+              std::max(srcInterval.first, 0);
             srcInterval.second = 
-              std::min(srcInterval.second, src.dataWindow().max[dim]);
+              std::min(srcInterval.second, srcRes[dim] - 1);
             // For each input voxel
             for (int s = srcInterval.first; s <= srcInterval.second; ++s) {
               // Index
-              const int xIdx = dim == 0 ? s : i;
-              const int yIdx = dim == 1 ? s : j;
-              const int zIdx = dim == 2 ? s : k;
+              const int xIdx = srcMin.x + (dim == 0 ? s : i);
+              const int yIdx = srcMin.y + (dim == 1 ? s : j);
+              const int zIdx = srcMin.z + (dim == 2 ? s : k);
               // Value
               const T value      = src.fastValue(xIdx, yIdx, zIdx);
               // Weights
-              const float srcP   = discToCont(V3i(xIdx, yIdx, zIdx)[dim]);
+              const float srcP   = discToCont(s);
               const float dist   = getDist(doUpres, srcP, tgtP, srcSize, tgtSize);
               const float weight = filterOp.eval(dist);
               // Update
@@ -516,11 +517,7 @@ namespace detail {
   
     typedef typename Field_T::value_type T;
 
-    if (!src.dataWindow().hasVolume()) {
-      return false;
-    }
-
-    if (src.dataWindow().min != V3i(0)) {
+    if (src.dataWindow().isEmpty()) {
       return false;
     }
 
-- 
2.43.0

