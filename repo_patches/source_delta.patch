From e21118df18d285c06db329e3803d96cb9d6a7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:21 +0000
Subject: [PATCH 001/102] fix: WriteZeroes wrote only about half of the
 requested zeroes when more than one 4 KiB block was needed

---
 Src/libCZI/CziWriter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..e90deab 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,12 +470,11 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    while (totalBytesWritten < count)
     {
         uint64_t bytesWritten;
-        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-        writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
+        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count - totalBytesWritten);
+        writeFunc(filePos + totalBytesWritten, zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
         totalBytesWritten += (size_t)bytesWritten;
     }
 
-- 
2.43.0


From 8b4de8cf330183219c423ef53ee0748274f4de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:21 +0000
Subject: [PATCH 002/102] fix: padding of an attachment directory that is
 smaller than its segment must not overwrite its entries

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e90deab..377be92 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -770,7 +770,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        totalBytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From c240e5226ffc8eb412dd0829cd83a20f1d90226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:18 +0000
Subject: [PATCH 003/102] fix: M-index bounds are checked even if no dimension
 bounds are declared

---
 Src/libCZI/CziWriter.cpp | 44 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 377be92..31328fd 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -1315,36 +1315,34 @@ void CCziWriter::ThrowIfCoordinateIsOutOfBounds(const libCZI::AddSubBlockInfo& a
 CCziWriter::SbBlkCoordinateCheckResult CCziWriter::CheckCoordinate(const libCZI::AddSubBlockInfo& addSbBlkInfo) const
 {
     const IDimBounds* dimBounds = this->info->GetDimBounds();
-    if (dimBounds == nullptr)
+    if (dimBounds != nullptr)
     {
-        return SbBlkCoordinateCheckResult::Ok;
-    }
-
-    int cntOfValidDimensionsInDimBounds = 0;
-    for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
-    {
-        int startIndex, sizeIndex;
-        if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
+        int cntOfValidDimensionsInDimBounds = 0;
+        for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
         {
-            int coord;
-            bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
-            if (b == false)
+            int startIndex, sizeIndex;
+            if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
             {
-                return SbBlkCoordinateCheckResult::InsufficientCoordinate;
-            }
+                int coord;
+                bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
+                if (b == false)
+                {
+                    return SbBlkCoordinateCheckResult::InsufficientCoordinate;
+                }
 
-            if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
-            {
-                return SbBlkCoordinateCheckResult::OutOfBounds;
-            }
+                if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
+                {
+                    return SbBlkCoordinateCheckResult::OutOfBounds;
+                }
 
-            ++cntOfValidDimensionsInDimBounds;
+                ++cntOfValidDimensionsInDimBounds;
+            }
         }
-    }
 
-    if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
-    {
-        return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
+        {
+            return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        }
     }
 
     int mMin, mMax;
-- 
2.43.0


From b1aea6568703027fa744bfc8ec65aaa4204c2350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:00 +0000
Subject: [PATCH 004/102] fix: attachment names and content types using all
 available characters are handled without truncation or out-of-bounds reads

---
 Src/libCZI/CZIReader.cpp               |  6 +++---
 Src/libCZI/CziAttachmentsDirectory.cpp | 10 ++++++++++
 Src/libCZI/CziAttachmentsDirectory.h   |  8 ++++++--
 Src/libCZI/CziParse.cpp                |  1 -
 Src/libCZI/CziReaderCommon.cpp         |  6 +++---
 Src/libCZI/CziReaderWriter.cpp         |  9 +++++----
 6 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..2b6a61a 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -274,7 +274,7 @@ CCZIReader::CCZIReader() :
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
         memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -290,7 +290,7 @@ CCZIReader::CCZIReader() :
         {
             ai.contentGuid = ae.ContentGuid;
             memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
+            ai.name = ae.GetName();
             bool b = funcEnum(index, ai);
             return b;
         });
@@ -419,7 +419,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..6fb260b 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -30,6 +30,16 @@ using namespace libCZI::detail;
     return true;
 }
 
+std::string CCziAttachmentsDirectoryBase::AttachmentEntry::GetContentFileType() const
+{
+    return std::string(this->ContentFileType, std::find(this->ContentFileType, this->ContentFileType + sizeof(this->ContentFileType), '\0'));
+}
+
+std::string CCziAttachmentsDirectoryBase::AttachmentEntry::GetName() const
+{
+    return std::string(this->Name, std::find(this->Name, this->Name + sizeof(this->Name), '\0'));
+}
+
 size_t CCziAttachmentsDirectory::GetEntryCnt() const
 {
     return this->attachmentEntries.size();
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 886255a..f4ced9f 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -8,6 +8,7 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <string>
 
 namespace libCZI
 {
@@ -21,8 +22,11 @@ namespace libCZI
             {
                 std::int64_t FilePosition;
                 libCZI::GUID ContentGuid;
-                char ContentFileType[8];
-                char Name[80];
+                char ContentFileType[8];    ///< Not zero-terminated if all characters are used.
+                char Name[80];              ///< Not zero-terminated if all characters are used.
+
+                std::string GetContentFileType() const;
+                std::string GetName() const;
             };
 
             struct AttachmentEntryEx : AttachmentEntry
diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..82b9c61 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -243,7 +243,6 @@ using namespace libCZI::detail;
             ae.ContentGuid = pSrc->ContentGuid;
             memcpy(&ae.ContentFileType[0], &pSrc->ContentFileType[0], sizeof(AttachmentEntryA1::ContentFileType));
             memcpy(&ae.Name[0], &pSrc->Name[0], sizeof(AttachmentEntryA1::Name));
-            ae.Name[sizeof(AttachmentEntryA1::Name) - 1] = '\0';
             addFunc(ae);
         }
     }
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..f3c49ef 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -93,13 +93,13 @@ using namespace libCZI::detail;
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            if (contentFileType == nullptr || ae.GetContentFileType() == contentFileType)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ae.GetName() == name)
                 {
                     ai.contentGuid = ae.ContentGuid;
                     memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
+                    ai.name = ae.GetName();
                     bool b = funcEnum(index, ai);
                     return b;
                 }
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..3ebf076 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -789,9 +789,9 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     {
         info->contentGuid = entry.ContentGuid;
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
+        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -806,7 +806,8 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
             libCZI::AttachmentInfo info;
             info.contentGuid = entry.ContentGuid;
             memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
+            info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+            info.name = entry.GetName();
             bool b = funcEnum(index, info);
             return b;
         });
@@ -939,7 +940,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
-- 
2.43.0


From dd34177c8f7574cd515ba2222940639873e4fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:23 +0000
Subject: [PATCH 005/102] fix: an attachment directory appended after an
 appended sub-block directory must not overlap it

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 3ebf076..9f7e223 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -285,7 +285,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -323,7 +323,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From 5809f9c2e0349018d037ad952f0cc95c841da243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:23 +0000
Subject: [PATCH 006/102] fix: position of the next segment after a replaced
 item has been appended (attachment was overwritten, gap after sub-block)

---
 Src/libCZI/CziReaderWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 9f7e223..95b6f14 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -177,7 +177,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
@@ -850,7 +850,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
@@ -893,7 +893,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From 3ac6e347fe76b5ab0673e505d7705df20956bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:23 +0000
Subject: [PATCH 007/102] fix: a document newly created in an edit session has
 a sub-block directory and valid positions in its file header

---
 Src/libCZI/CziReaderWriter.cpp | 5 +++--
 Src/libCZI/CziReaderWriter.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 95b6f14..2307992 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -252,7 +252,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
 void CCziReaderWriter::Finish()
 {
-    if (this->sbBlkDirectory.IsModified())
+    // note: a CZI must always contain a sub-block directory (even if it is empty), otherwise the file cannot be opened again
+    if (this->sbBlkDirectory.IsModified() || !this->subBlockDirectorySegment.IsValid())
     {
         this->EnsureNextSegmentInfo();
         CWriterUtils::SubBlkDirWriteInfo sbBlkDirWriteInfo;
@@ -328,7 +329,7 @@ void CCziReaderWriter::Finish()
     }
 
     if ((this->attachmentDirectory.IsModified() && this->hdrSegmentData.GetAttachmentDirectoryPosition() != this->attachmentDirectorySegment.GetFilePos()) ||
-        (this->sbBlkDirectory.IsModified() && this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos()) ||
+        this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos() ||
         this->hdrSegmentData.GetMetadataPosition() != this->metadataSegment.GetFilePos())
     {
         this->UpdateFileHeader();
diff --git a/Src/libCZI/CziReaderWriter.h b/Src/libCZI/CziReaderWriter.h
index 1ea792e..70ad4d0 100644
--- a/Src/libCZI/CziReaderWriter.h
+++ b/Src/libCZI/CziReaderWriter.h
@@ -144,7 +144,7 @@ namespace libCZI
                 std::uint64_t allocatedSize;
                 bool isMarkedAsDeleted;
             public:
-                WrittenSegmentInfo() : isValid(false) {}
+                WrittenSegmentInfo() : isValid(false), filePos(0), allocatedSize(0), isMarkedAsDeleted(false) {}
                 void Invalidate() { this->isValid = false; }
                 bool IsValid() const { return this->isValid; }
                 void SetPositionAndAllocatedSize(std::uint64_t filePos, std::uint64_t allocatedSize, bool isMarkedAsDeleted)
-- 
2.43.0


From 48850afef3756798c69658842d158646f752ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:23 +0000
Subject: [PATCH 008/102] fix: check the arguments when replacing a sub-block
 or an attachment

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 2307992..8288ede 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -165,6 +165,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddSubBlockArguments(addSbBlkInfo);
+
     CCziSubBlockDirectoryBase::SubBlkEntry sbEntryExisting;
     bool b = this->sbBlkDirectory.TryGetSubBlock(key, &sbEntryExisting);
     if (b == false)
@@ -839,6 +843,10 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 /*virtual*/void CCziReaderWriter::ReplaceAttachment(int attchmntId, const libCZI::AddAttachmentInfo& addAttachmentInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddAttachmentArguments(addAttachmentInfo);
+
     CCziAttachmentsDirectoryBase::AttachmentEntry attchmntEntryExisting;
     bool b = this->attachmentDirectory.TryGetAttachment(attchmntId, &attchmntEntryExisting);
     if (b == false)
-- 
2.43.0


From a6dce50476a78556a6635868f4783e2319bdfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:42 +0000
Subject: [PATCH 009/102] fix: pyramid statistics are recalculated from scratch
 after a sub-block has been replaced or removed

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..fd3599c 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From f9ce52611c68e64ff77e183d798af2b568cd93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:42 +0000
Subject: [PATCH 010/102] fix: the M-index range includes sub-blocks which have
 no coordinate in any dimension

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index fd3599c..f1f4cf2 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -82,22 +82,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From aa0b61885caef4a6a6bf7445db6bf5f041ad351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:42 +0000
Subject: [PATCH 011/102] fix: querying the pyramid statistics of a reader does
 not modify shared state, and sorting uses a strict weak ordering

---
 Src/libCZI/CziSubBlockDirectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index f1f4cf2..2a1ada0 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -169,7 +169,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
@@ -331,7 +331,7 @@ void CSbBlkStatisticsUpdater::SortPyramidStatistics()
                 // layer0 always "goes first"
                 if (a.layerInfo.IsLayer0())
                 {
-                    return true;
+                    return !b.layerInfo.IsLayer0();
                 }
 
                 // ...and "not identified" always last
-- 
2.43.0


From 7f16d980fa00b51fa934659f7e493359a2ddc575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 012/102] fix: an item that could not be written is not added
 to the directory

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 26 ++++++++++++++++++--------
 Src/libCZI/CziAttachmentsDirectory.h   |  2 ++
 Src/libCZI/CziReaderWriter.cpp         | 10 ++++++----
 Src/libCZI/CziSubBlockDirectory.cpp    | 26 +++++++++++++++++++++++---
 Src/libCZI/CziSubBlockDirectory.h      |  2 ++
 Src/libCZI/CziWriter.cpp               | 10 ++++++----
 6 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 6fb260b..2c089b4 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -80,10 +80,7 @@ bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entr
 
 bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
 {
-    if (std::find_if(
-        this->attachments_.cbegin(),
-        this->attachments_.cend(),
-        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend())
+    if (this->Contains(entry))
     {
         return false;
     }
@@ -92,6 +89,14 @@ bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& ent
     return true;
 }
 
+bool CWriterCziAttachmentsDirectory::Contains(const AttachmentEntry& entry) const
+{
+    return std::find_if(
+        this->attachments_.cbegin(),
+        this->attachments_.cend(),
+        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend();
+}
+
 bool CWriterCziAttachmentsDirectory::EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const
 {
     int index = 0;
@@ -193,10 +198,7 @@ bool CReaderWriterCziAttachmentsDirectory::TryRemoveAttachment(int key, Attachme
 
 bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry, int* key)
 {
-    if (std::find_if(
-        this->attchmnts.cbegin(),
-        this->attchmnts.cend(),
-        [&entry](const std::pair<int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend())
+    if (this->Contains(entry))
     {
         return false;
     }
@@ -204,3 +206,11 @@ bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntr
     this->AddAttachment(entry, key);
     return true;
 }
+
+bool CReaderWriterCziAttachmentsDirectory::Contains(const AttachmentEntry& entry) const
+{
+    return std::find_if(
+        this->attchmnts.cbegin(),
+        this->attchmnts.cend(),
+        [&entry](const std::pair<int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend();
+}
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index f4ced9f..ed05c6e 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -65,6 +65,7 @@ namespace libCZI
         {
         public:
             bool TryAddAttachment(const AttachmentEntry& entry);
+            bool Contains(const AttachmentEntry& entry) const;
             int GetAttachmentCount() const;
             bool EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const;
         private:
@@ -95,6 +96,7 @@ namespace libCZI
             bool TryRemoveAttachment(int key, AttachmentEntry* attchmntEntry);
 
             bool TryAddAttachment(const AttachmentEntry& entry, int* key);
+            bool Contains(const AttachmentEntry& entry) const;
         };
 
     } // namespace detail
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 8288ede..02e292d 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -122,8 +122,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
-    if (b == false)
+    if (this->sbBlkDirectory.Contains(entry))
     {
         throw LibCZIReaderWriteException("Could not add subblock because it already exists", LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
@@ -133,8 +132,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
+    // add it to the directory only after it was written successfully
     const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+    this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -147,8 +148,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->attachmentDirectory.TryAddAttachment(entry, nullptr);
-    if (b == false)
+    if (this->attachmentDirectory.Contains(entry))
     {
         throw LibCZIReaderWriteException("Could not add attachment because it already exists", LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
@@ -158,8 +158,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
+    // add it to the directory only after it was written successfully
     auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+    this->attachmentDirectory.TryAddAttachment(entry, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 2a1ada0..6df4132 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -463,6 +463,11 @@ bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
     return insert.second;
 }
 
+bool CWriterCziSubBlockDirectory::Contains(const SubBlkEntry& entry) const
+{
+    return this->subBlks.find(entry) != this->subBlks.cend();
+}
+
 bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEntry& a, const SubBlkEntry& b) const
 {
     // returns true if the first argument goes before the second argument in the strict weak ordering it defines, 
@@ -703,17 +708,32 @@ bool CReaderWriterCziSubBlockDirectory::TryRemoveSubBlock(int key, SubBlkEntry*
 ///
 /// \return True if it succeeds, false if it fails (because an entry with identical coordinate already exists).
 bool CReaderWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry, int* key)
+{
+    if (this->Contains(entry))
+    {
+        return false;
+    }
+
+    this->AddSubBlock(entry, key);
+    return true;
+}
+
+/// Query if a subblock with an equal coordinate already exists.
+///
+/// \param entry The entry to check.
+///
+/// \return True if an entry with identical coordinate already exists, false otherwise.
+bool CReaderWriterCziSubBlockDirectory::Contains(const SubBlkEntry& entry) const
 {
     for (auto it = this->subBlks.cbegin(); it != this->subBlks.cend(); ++it)
     {
         if (CCziSubBlockDirectoryBase::CompareForEquality_Coordinate(it->second, entry))
         {
-            return false;
+            return true;
         }
     }
 
-    this->AddSubBlock(entry, key);
-    return true;
+    return false;
 }
 
 const libCZI::SubBlockStatistics& CReaderWriterCziSubBlockDirectory::GetStatistics()
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index ca653b2..d926039 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -145,6 +145,7 @@ namespace libCZI
             CWriterCziSubBlockDirectory() = delete;
             CWriterCziSubBlockDirectory(bool allow_duplicate_subblocks);
             bool TryAddSubBlock(const SubBlkEntry& entry);
+            bool Contains(const SubBlkEntry& entry) const;
 
             bool EnumEntries(const std::function<bool(size_t index, const SubBlkEntry&)>& func) const;
 
@@ -197,6 +198,7 @@ namespace libCZI
             bool TryModifySubBlock(int key, const SubBlkEntry& entry);
             bool TryRemoveSubBlock(int key, SubBlkEntry* entry = nullptr);
             bool TryAddSubBlock(const SubBlkEntry& entry, int* key);
+            bool Contains(const SubBlkEntry& entry) const;
 
             bool EnumEntries(const std::function<bool(int index, const SubBlkEntry&)>& func) const;
 
diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 31328fd..aebf3ca 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -965,13 +965,14 @@ CCziWriter::~CCziWriter()
 
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry);
-    if (b == false)
+    if (this->sbBlkDirectory.Contains(entry))
     {
         throw LibCZIWriteException("Could not add subblock because it already exists", LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
 
+    // add it to the directory only after it was written successfully
     this->WriteSubBlock(addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry);
 }
 
 /*virtual*/void CCziWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -983,13 +984,14 @@ CCziWriter::~CCziWriter()
 
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->attachmentDirectory.TryAddAttachment(entry);
-    if (b == false)
+    if (this->attachmentDirectory.Contains(entry))
     {
         throw LibCZIWriteException("Could not add attachment because it already exists", LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
 
+    // add it to the directory only after it was written successfully
     this->WriteAttachment(addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry);
 }
 
 /*virtual*/void CCziWriter::SyncWriteMetadata(const libCZI::WriteMetadataInfo& metadataInfo)
-- 
2.43.0


From f0d866dcd3aea8c93768bbb2f499a7e4a17b06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 013/102] fix: an item whose removal failed stays in the
 directory

---
 Src/libCZI/CziReaderWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 02e292d..068f1aa 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -191,7 +191,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 {
     this->ThrowIfNotOperational();
     CCziSubBlockDirectoryBase::SubBlkEntry sbEntryExisting;
-    bool b = this->sbBlkDirectory.TryRemoveSubBlock(key, &sbEntryExisting);
+    bool b = this->sbBlkDirectory.TryGetSubBlock(key, &sbEntryExisting);
     if (b == false)
     {
         throw LibCZIReaderWriteException("invalid id specified in \"RemoveSubBlock\"", LibCZIReaderWriteException::ErrorType::InvalidSubBlkId);
@@ -201,6 +201,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     mdi.segmentPos = sbEntryExisting.FilePosition;
     mdi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     CWriterUtils::WriteDeletedSegment(mdi);
+    this->sbBlkDirectory.TryRemoveSubBlock(key, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::SyncWriteMetadata(const WriteMetadataInfo& metadataInfo)
@@ -929,7 +930,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
 {
     this->ThrowIfNotOperational();
     CCziAttachmentsDirectoryBase::AttachmentEntry attchmntEntryExisting;
-    bool b = this->attachmentDirectory.TryRemoveAttachment(attchmntId, &attchmntEntryExisting);
+    bool b = this->attachmentDirectory.TryGetAttachment(attchmntId, &attchmntEntryExisting);
     if (b == false)
     {
         throw LibCZIReaderWriteException("invalid id specified in \"RemoveAttachment\"", LibCZIReaderWriteException::ErrorType::InvalidAttachmentId);
@@ -939,6 +940,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     mdi.segmentPos = attchmntEntryExisting.FilePosition;
     mdi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     CWriterUtils::WriteDeletedSegment(mdi);
+    this->attachmentDirectory.TryRemoveAttachment(attchmntId, nullptr);
 }
 
 std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)
-- 
2.43.0


From 8d81b6a34ca63135979f598980db8b0e19d0204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:20 +0000
Subject: [PATCH 014/102] fix: a segment to be superseded is marked as deleted
 only after the new segment was written

---
 Src/libCZI/CziWriter.cpp | 63 ++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index aebf3ca..9b91b2c 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -573,6 +573,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     ms.data.AttachmentSize = (int)metadataInfo.attachmentSize;
     memset(ms.data._spare, 0, sizeof(ms.data._spare));
 
+    bool reUsedExistingSegment = true;
     uint64_t metadataSegmentPos;
 
     if (int64_t(info.sizeExistingSegmentPos) >= ms.header.AllocatedSize)
@@ -582,16 +583,8 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     }
     else
     {
-        // if the existing segment is not large enough, we write "segmenttype=DELETED" into it(which is necessary if it was not a reservation)
-        if (info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
-        {
-            MarkDeletedInfo mark_deleted_info;
-            mark_deleted_info.segmentPos = info.existingSegmentPos;
-            mark_deleted_info.writeFunc = info.writeFunc;
-            WriteDeletedSegment(mark_deleted_info);
-        }
-
         metadataSegmentPos = info.segmentPosForNewSegment;
+        reUsedExistingSegment = false;
     }
 
     uint64_t bytesWritten;
@@ -619,6 +612,16 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         CWriterUtils::WriteZeroes(info.writeFunc, metadataSegmentPos + totalBytesWritten, msHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
+    // if the existing segment was not large enough, we write "segmenttype=DELETED" into it (which is necessary if it was not a reservation),
+    // and we do so only after the new segment was written successfully
+    if (!reUsedExistingSegment && info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
+    {
+        MarkDeletedInfo mark_deleted_info;
+        mark_deleted_info.segmentPos = info.existingSegmentPos;
+        mark_deleted_info.writeFunc = info.writeFunc;
+        WriteDeletedSegment(mark_deleted_info);
+    }
+
     return make_tuple(metadataSegmentPos, static_cast<std::uint64_t>(msHeaderAllocatedSize));
 }
 
@@ -664,17 +667,6 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         upSbBlkDirSegment->header.AllocatedSize = info.sizeExistingSegmentPos;
         reUsedExistingSegment = true;
     }
-    else
-    {
-        // if the existing segment is not large enough, we write "segmenttype=DELETED" into it(which is necessary if it was not a reservation)
-        if (info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
-        {
-            MarkDeletedInfo mark_deleted_info;
-            mark_deleted_info.segmentPos = info.existingSegmentPos;
-            mark_deleted_info.writeFunc = info.writeFunc;
-            WriteDeletedSegment(mark_deleted_info);
-        }
-    }
 
     if (!reUsedExistingSegment)
     {
@@ -692,6 +684,16 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, subBlkDirPos + bytesWritten, sbBlkDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
     }
 
+    // if the existing segment was not large enough, we write "segmenttype=DELETED" into it (which is necessary if it was not a reservation),
+    // and we do so only after the new segment was written successfully
+    if (!reUsedExistingSegment && info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
+    {
+        MarkDeletedInfo mark_deleted_info;
+        mark_deleted_info.segmentPos = info.existingSegmentPos;
+        mark_deleted_info.writeFunc = info.writeFunc;
+        WriteDeletedSegment(mark_deleted_info);
+    }
+
     return make_tuple(subBlkDirPos, static_cast<std::uint64_t>(sbBlkDirSegmentHeaderAllocatedSize));
 }
 
@@ -717,17 +719,6 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         attchmntDirSegment.header.AllocatedSize = info.sizeExistingSegmentPos;// this->attachmentDirectorySegment.GetAllocatedSize();
         reUsedExistingSegment = true;
     }
-    else
-    {
-        // if the existing segment is not large enough, we write "segmenttype=DELETED" into it(which is necessary if it was not a reservation)
-        if (info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
-        {
-            MarkDeletedInfo mark_deleted_info;
-            mark_deleted_info.segmentPos = info.existingSegmentPos;
-            mark_deleted_info.writeFunc = info.writeFunc;
-            WriteDeletedSegment(mark_deleted_info);
-        }
-    }
 
     if (!reUsedExistingSegment)
     {
@@ -773,6 +764,16 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         totalBytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
+    // if the existing segment was not large enough, we write "segmenttype=DELETED" into it (which is necessary if it was not a reservation),
+    // and we do so only after the new segment was written successfully
+    if (!reUsedExistingSegment && info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
+    {
+        MarkDeletedInfo mark_deleted_info;
+        mark_deleted_info.segmentPos = info.existingSegmentPos;
+        mark_deleted_info.writeFunc = info.writeFunc;
+        WriteDeletedSegment(mark_deleted_info);
+    }
+
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
 }
 
-- 
2.43.0


From 4e819a20d9ab91a758b2c352bee1abf00a70cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:36 +0000
Subject: [PATCH 015/102] fix: a writer whose creation failed is not left
 operational

---
 Src/libCZI/CziWriter.cpp | 45 ++++++++++++++++++++++++++--------------
 Src/libCZI/CziWriter.h   |  1 +
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 9b91b2c..b1ef3e1 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -931,27 +931,35 @@ CCziWriter::~CCziWriter()
         this->info = make_shared<CCziWriterInfo>(Utilities::GenerateNewGuid());
     }
 
-    FileHeaderData fhd;
-    memset(&fhd, 0, sizeof(fhd));
-    fhd.primaryFileGuid = this->info->GetFileGuid();
-    this->WriteFileHeader(fhd);
+    try
+    {
+        FileHeaderData fhd;
+        memset(&fhd, 0, sizeof(fhd));
+        fhd.primaryFileGuid = this->info->GetFileGuid();
+        this->WriteFileHeader(fhd);
 
-    this->nextSegmentPos = sizeof(FileHeaderSegment);
+        this->nextSegmentPos = sizeof(FileHeaderSegment);
 
-    size_t s;
-    if (this->info->TryGetReservedSizeForMetadataSegment(&s))
-    {
-        this->ReserveMetadataSegment(s);
-    }
+        size_t s;
+        if (this->info->TryGetReservedSizeForMetadataSegment(&s))
+        {
+            this->ReserveMetadataSegment(s);
+        }
 
-    if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
-    {
-        this->ReserveSubBlockDirectory(s);
-    }
+        if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
+        {
+            this->ReserveSubBlockDirectory(s);
+        }
 
-    if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        {
+            this->ReserveAttachmentDirectory(s);
+        }
+    }
+    catch (...)
     {
-        this->ReserveAttachmentDirectory(s);
+        this->Reset();
+        throw;
     }
 }
 
@@ -1031,6 +1039,11 @@ CCziWriter::~CCziWriter()
 {
     this->ThrowIfNotOperational();
     this->Finish();
+    this->Reset();
+}
+
+void CCziWriter::Reset()
+{
     this->nextSegmentPos = 0;
     this->sbBlkDirectory = CWriterCziSubBlockDirectory{ this->cziWriterOptions.allow_duplicate_subblocks };
     this->attachmentDirectory = CWriterCziAttachmentsDirectory();
diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 3b03cfe..155d08c 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -318,6 +318,7 @@ namespace libCZI
             void WriteFileHeader(const FileHeaderData& fhd);
 
             void Finish();
+            void Reset();
 
             void ThrowIfNotOperational() const;
             void ThrowIfAlreadyInitialized() const;
-- 
2.43.0


From a18b4ee6188926c523a9fade671190c27f63fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 016/102] fix: an edit session that failed to open does not
 keep what was read so far

---
 Src/libCZI/CziReaderWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 068f1aa..d2d316d 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -97,8 +97,14 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     }
     catch (...)
     {
+        // bring the object back into its initial state, so that nothing of what was read so far is left
         this->stream.reset();
         this->info.reset();
+        this->sbBlkDirectory = CReaderWriterCziSubBlockDirectory();
+        this->attachmentDirectory = CReaderWriterCziAttachmentsDirectory();
+        this->subBlockDirectorySegment = WrittenSegmentInfo();
+        this->attachmentDirectorySegment = WrittenSegmentInfo();
+        this->metadataSegment = WrittenSegmentInfo();
         throw;
     }
 }
-- 
2.43.0


From f1a2c8b5a1f2664c39a21b5596fd500f95693cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 017/102] fix: a reader re-opened with a document without
 attachments does not show the attachments of the previous document

---
 Src/libCZI/CZIReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 2b6a61a..62a1e1b 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -62,6 +62,11 @@ CCZIReader::CCZIReader() :
         // TODO: how to determine whether there is "no attachment-directory" - is the check for 0 sufficient?
         this->attachmentDir = CCZIParse::ReadAttachmentsDirectory(stream.get(), attachmentPos);
     }
+    else
+    {
+        // the object may have been used with another document before
+        this->attachmentDir = CCziAttachmentsDirectory();
+    }
 
     this->stream = stream;
     switch (options->default_frame_of_reference)
-- 
2.43.0


From 9cd0ffb49c3082e6783766b6cdf7fc038912e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:35 +0000
Subject: [PATCH 018/102] fix: a negative index is reported as not existing by
 a reader

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 2c089b4..9213633 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -67,7 +67,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 6df4132..b1dda83 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -416,7 +416,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From 6158e33ad7cd755cd4724e33ed40a029d0ad8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:35 +0000
Subject: [PATCH 019/102] fix: a closed reader does not answer
 TryGetSubBlockInfo from the document it had open before

---
 Src/libCZI/CZIReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 62a1e1b..c8f154d 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -225,6 +225,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/bool CCZIReader::TryGetSubBlockInfo(int index, SubBlockInfo* info) const
 {
+    this->ThrowIfNotOperational();
     CCziSubBlockDirectory::SubBlkEntry entry;
     if (this->subBlkDir.TryGetSubBlock(index, entry) == false)
     {
-- 
2.43.0


From b91290f6c8927f2328e7d82a472519bbe2419cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:35 +0000
Subject: [PATCH 020/102] fix: intersection of rectangles whose right or bottom
 edge is beyond the range of an integer

---
 Src/libCZI/libCZI_Pixels.h | 14 +++++++-------
 Src/libCZI/utilities.h     |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/libCZI_Pixels.h b/Src/libCZI/libCZI_Pixels.h
index c966545..d1a0571 100644
--- a/Src/libCZI/libCZI_Pixels.h
+++ b/Src/libCZI/libCZI_Pixels.h
@@ -40,10 +40,10 @@ namespace libCZI
                 return false;
             }
 
-            return !(this->x + this->w <= r.x ||
-                        r.x + r.w <= this->x ||
-                        this->y + this->h <= r.y ||
-                        r.y + r.h <= this->y);
+            return !(static_cast<std::int64_t>(this->x) + this->w <= r.x ||
+                        static_cast<std::int64_t>(r.x) + r.w <= this->x ||
+                        static_cast<std::int64_t>(this->y) + this->h <= r.y ||
+                        static_cast<std::int64_t>(r.y) + r.h <= this->y);
         }
 
         /// Calculate the intersection with the specified rectangle.
@@ -65,12 +65,12 @@ namespace libCZI
         static IntRect Intersect(const IntRect& a, const IntRect& b)
         {
             const int x1 = (std::max)(a.x, b.x);
-            const int x2 = (std::min)(a.x + a.w, b.x + b.w);
+            const std::int64_t x2 = (std::min)(static_cast<std::int64_t>(a.x) + a.w, static_cast<std::int64_t>(b.x) + b.w);
             const int y1 = (std::max)(a.y, b.y);
-            const int y2 = (std::min)(a.y + a.h, b.y + b.h);
+            const std::int64_t y2 = (std::min)(static_cast<std::int64_t>(a.y) + a.h, static_cast<std::int64_t>(b.y) + b.h);
             if (x2 >= x1 && y2 >= y1)
             {
-                return IntRect{ x1, y1, x2 - x1, y2 - y1 };
+                return IntRect{ x1, y1, static_cast<int>(x2 - x1), static_cast<int>(y2 - y1) };
             }
 
             return IntRect{ 0,0,0,0 };
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index ae11243..a0867fc 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -53,13 +53,13 @@ namespace libCZI
             static libCZI::IntRect Intersect(const libCZI::IntRect& a, const libCZI::IntRect& b)
             {
                 const int x1 = (std::max)(a.x, b.x);
-                const int x2 = (std::min)(a.x + a.w, b.x + b.w);
+                const std::int64_t x2 = (std::min)(static_cast<std::int64_t>(a.x) + a.w, static_cast<std::int64_t>(b.x) + b.w);
                 const int y1 = (std::max)(a.y, b.y);
-                const int y2 = (std::min)(a.y + a.h, b.y + b.h);
+                const std::int64_t y2 = (std::min)(static_cast<std::int64_t>(a.y) + a.h, static_cast<std::int64_t>(b.y) + b.h);
 
                 if (x2 >= x1 && y2 >= y1)
                 {
-                    return libCZI::IntRect{ x1, y1, x2 - x1, y2 - y1 };
+                    return libCZI::IntRect{ x1, y1, static_cast<int>(x2 - x1), static_cast<int>(y2 - y1) };
                 }
 
                 return libCZI::IntRect{ 0,0,0,0 };
-- 
2.43.0


From 491de27e98c8e7f5d1105303ca61369c69b70ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:05 +0000
Subject: [PATCH 021/102] fix: the signature of JPEG XR data is compared
 without reading past the two bytes read

---
 Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
index dae26ba..00d4153 100644
--- a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
+++ b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
@@ -1812,7 +1812,7 @@ ERR JXRLIB_API(ReadContainer)(
     //================================
     // Header
     Call(pWS->Read(pWS, szSig, sizeof(szSig))); offPos += 2;
-    FailIf(szSig != strstr(szSig, "II"), WMP_errUnsupportedFormat);
+    FailIf(szSig[0] != 'I' || szSig[1] != 'I', WMP_errUnsupportedFormat);
 
     Call(JXRLIB_API(GetUShort)(pWS, offPos, &uWmpID)); offPos += 2;
     FailIf(WMP_valWMPhotoID != (0x00FF & uWmpID), WMP_errUnsupportedFormat);
-- 
2.43.0


From bd49a0a3b8c24968c9f0cb7a509e6e94890c08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:05 +0000
Subject: [PATCH 022/102] fix: the number of dimensions of a sub-block is
 checked before the dimension entries are read

---
 Src/libCZI/CziParse.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 82b9c61..455f83c 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -287,7 +287,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
@@ -500,8 +500,14 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                stringstream ss;
+                ss << "'DimensionCount' in the sub-block directory was found to be " << dv.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
+                CCZIParse::ThrowIllegalData(ss.str().c_str());
+            }
+
             int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From 54535242cdf1534713f6de0ad688687770b8dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:05 +0000
Subject: [PATCH 023/102] fix: an allocation failure when reading a directory
 is reported

---
 Src/libCZI/CziParse.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 455f83c..0a53d83 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -116,6 +116,11 @@ using namespace libCZI::detail;
 
     // now read the used-size from stream
     std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    if (!pBuffer && subBlkDirSize > 0)
+    {
+        throw std::bad_alloc();
+    }
+
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -210,6 +215,10 @@ using namespace libCZI::detail;
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
         unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        if (!pBuffer)
+        {
+            throw std::bad_alloc();
+        }
 
         // now read the attachment-entries
         try
-- 
2.43.0


From 91531d38cd398e0693938da53d8669e5f2292db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 024/102] fix: negative sizes and failing allocations are
 reported when reading a segment

---
 Src/libCZI/CziParse.cpp | 46 +++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 0a53d83..2194377 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -8,12 +8,46 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include "Site.h"
 
 using namespace std;
 using namespace libCZI;
 using namespace libCZI::detail;
 
+namespace
+{
+    /// Allocates the memory for a part (data, metadata, attachment...) of a segment. The size is as found in the file.
+    void* AllocateForPart(const CCZIParse::SubBlockStorageAllocate& allocateInfo, std::int64_t size, std::uint64_t offset)
+    {
+        if (size < 0)
+        {
+            stringstream ss;
+            ss << "Illegal data detected at offset " << offset << " -> a size was found to be " << size << ".";
+            throw LibCZICZIParseException(ss.str().c_str(), LibCZICZIParseException::ErrorCode::CorruptedData);
+        }
+
+        if (size == 0)
+        {
+            return nullptr;
+        }
+
+        if (static_cast<std::uint64_t>(size) > (std::numeric_limits<size_t>::max)())
+        {
+            throw std::bad_alloc();
+        }
+
+        void* ptr = allocateInfo.alloc(static_cast<size_t>(size));
+        if (ptr == nullptr)
+        {
+            throw std::bad_alloc();
+        }
+
+        return ptr;
+    }
+}
+
 /*static*/const std::uint8_t CCZIParse::FILEHDRMAGIC[16] = { 'Z','I','S','R','A','W','F','I','L','E','\0','\0','\0','\0','\0','\0' };
 /*static*/const std::uint8_t CCZIParse::SUBBLKDIRMAGIC[16] = { 'Z','I','S','R','A','W','D','I','R','E','C','T','O','R','Y','\0' };
 /*static*/const std::uint8_t CCZIParse::SUBBLKMAGIC[16] = { 'Z','I','S','R','A','W','S','U','B','B','L','O','C','K' ,'\0','\0' };
@@ -378,9 +412,9 @@ using namespace libCZI::detail;
 
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(AllocateForPart(allocateInfo, subBlckSegment.data.MetadataSize, offset), deleter);
+    std::unique_ptr<void, decltype(deleter)> pDataBuffer(AllocateForPart(allocateInfo, subBlckSegment.data.DataSize, offset), deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(AllocateForPart(allocateInfo, subBlckSegment.data.AttachmentSize, offset), deleter);
 
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
@@ -471,7 +505,7 @@ using namespace libCZI::detail;
 
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(AllocateForPart(allocateInfo, attchmntSegment.data.DataSize, offset), deleter);
 
     if (pAttchmntBuffer)
     {
@@ -686,8 +720,8 @@ using namespace libCZI::detail;
 
     // TODO: perform consistency checks...
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(AllocateForPart(allocateInfo, metadataSegment.data.XmlSize, offset), deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(AllocateForPart(allocateInfo, metadataSegment.data.AttachmentSize, offset), deleter);
     if (pXmlBuffer)
     {
         try
-- 
2.43.0


From 3cedf570861356f1ff86bed0f6c481242d8717b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 025/102] fix: segments with a data size beyond 2 GiB can be
 read

---
 Src/libCZI/CziParse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 2194377..50e1733 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -429,7 +429,7 @@ namespace
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -446,7 +446,7 @@ namespace
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -463,7 +463,7 @@ namespace
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -518,7 +518,7 @@ namespace
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<std::uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -733,7 +733,7 @@ namespace
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<std::uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -750,7 +750,7 @@ namespace
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<std::uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
-- 
2.43.0


From 619e5e006dc5cf18fd45dcb0804f53da9dbd7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 026/102] fix: the description of a sub-block which lacks an X
 or Y dimension (or uses schema DE) is not left uninitialized

---
 Src/libCZI/CziParse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 50e1733..e48aa9e 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -321,13 +321,13 @@ namespace
     }
 
     uint32_t lengthSubblockSegmentData = 0;
-    SubBlockData sbd;
+    SubBlockData sbd{};
+    sbd.mIndex = (std::numeric_limits<int>::max)();
     if (subBlckSegment.data.entrySchema[0] == 'D' && subBlckSegment.data.entrySchema[1] == 'V')
     {
         ConvertToHostByteOrder::Convert(&subBlckSegment.data.entryDV);
         sbd.compression = subBlckSegment.data.entryDV.Compression;
         sbd.pixelType = subBlckSegment.data.entryDV.PixelType;
-        sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
         if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
-- 
2.43.0


From 64fb3fe0f51308412918c1e217d9dd0ce37c0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 027/102] fix: the size of a line of a bitmap is calculated
 without 32-bit overflow

---
 Src/libCZI/CreateBitmap.cpp |  2 +-
 Src/libCZI/bitmapData.h     | 30 +++++++++++++++++++++++++-----
 Src/libCZI/decoder_zstd.cpp |  8 ++++----
 Src/libCZI/stdAllocator.cpp |  2 +-
 4 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..c184cf6 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -104,7 +104,7 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     const auto& sub_block_info = subBlk->GetSubBlockInfo();
 
     // The stride with an uncompressed bitmap in CZI is exactly the line-size.
-    const std::uint32_t stride = sub_block_info.physicalSize.w * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    const std::uint32_t stride = CStdBitmapData::CalcPitch(sub_block_info.pixelType, sub_block_info.physicalSize.w);
     const size_t expected_size = static_cast<size_t>(stride) * sub_block_info.physicalSize.h;
 
     size_t size;
diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..c150ca9 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <memory>
+#include <limits>
+#include <stdexcept>
 #include <atomic>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
@@ -120,12 +122,30 @@ namespace libCZI
                 this->pixelType = pixeltype;
             }
 
+            /// Calculates the size of a line (i.e. the minimal pitch) for the specified pixel type and width. If the
+            /// size of a line cannot be represented with a pitch (of 32 bits), an exception of type out_of_range is thrown.
+            ///
+            /// \param  pixeltype   The pixel type.
+            /// \param  width       The width in pixels.
+            /// \param  alignment   (Optional) The size of a line is rounded up to the next multiple of this number.
+            ///
+            /// \returns    The size of a line in bytes.
+            static std::uint32_t CalcPitch(libCZI::PixelType pixeltype, std::uint64_t width, std::uint32_t alignment = 1)
+            {
+                const std::uint64_t line_size = CziUtils::GetBytesPerPel(pixeltype) * width;
+                const std::uint64_t pitch = ((line_size + alignment - 1) / alignment) * alignment;
+                if (pitch > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::out_of_range("The width of the bitmap is out-of-range.");
+                }
+
+                return static_cast<std::uint32_t>(pitch);
+            }
+
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint64_t width)
             {
-                auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
-                stride = ((stride + 3) / 4) * 4;
-                return stride;
+                return CalcPitch(pixeltype, width, 4);
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
@@ -149,7 +169,7 @@ namespace libCZI
         {
             if (pitch == 0)
             {
-                pitch = CalcDefaultPitch(pixeltype, width + 2 * extraColumns);
+                pitch = CalcDefaultPitch(pixeltype, width + 2ULL * extraColumns);
             }
 
             auto s = std::make_shared<CBitmapData<tAllocator>>(pixeltype, width, height, pitch, extraRows, extraColumns);
diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..cbb520d 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -130,7 +130,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeRequireCorrectSize(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        const size_t stride = CStdBitmapData::CalcPitch(pixel_type, width);
         const size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -165,7 +165,7 @@ namespace
     {
         // calculate the expected size of the uncompressed data
         const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        const size_t stride = CStdBitmapData::CalcPitch(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -209,7 +209,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        const size_t stride = CStdBitmapData::CalcPitch(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
@@ -276,7 +276,7 @@ namespace
     {
         // calculate the expected size of the uncompressed data
         const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        const size_t stride = CStdBitmapData::CalcPitch(pixel_type, width);
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
diff --git a/Src/libCZI/stdAllocator.cpp b/Src/libCZI/stdAllocator.cpp
index 21d802e..1bf906b 100644
--- a/Src/libCZI/stdAllocator.cpp
+++ b/Src/libCZI/stdAllocator.cpp
@@ -14,7 +14,7 @@ constexpr int ALLOC_ALIGNMENT = 32;
 
 void* CHeapAllocator::Allocate(std::uint64_t size)
 {
-    if (size > (std::numeric_limits<size_t>::max)())
+    if (size > (std::numeric_limits<size_t>::max)() - (ALLOC_ALIGNMENT + sizeof(void*)))
     {
         throw std::out_of_range("The requested size for allocation is out-of-range.");
     }
-- 
2.43.0


From 4f3f9cc2638235f0a4386d5fe41e6b59b5932d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 028/102] fix: the bitmaps are unlocked if adjusting a JPEG XR
 compressed bitmap to the size of its sub-block fails

---
 Src/libCZI/CreateBitmap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index c184cf6..622dbee 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -43,8 +43,8 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // create a bitmap of the size described in the subblock
             auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
-            auto adjusted_bitmap_lock = adjusted_bitmap->Lock();
-            auto decoded_bitmap_lock = decoded_bitmap->Lock();
+            const ScopedBitmapLockerSP adjusted_bitmap_lock{ adjusted_bitmap };
+            const ScopedBitmapLockerSP decoded_bitmap_lock{ decoded_bitmap };
             CBitmapOperations::CopyWithOffsetInfo copy_info;
             copy_info.xOffset = 0;
             copy_info.yOffset = 0;
@@ -60,8 +60,6 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             copy_info.dstHeight = adjusted_bitmap->GetHeight();
             copy_info.drawTileBorder = false;
             CBitmapOperations::CopyWithOffset(copy_info);
-            adjusted_bitmap->Unlock();
-            decoded_bitmap->Unlock();
             return adjusted_bitmap;
         }
     }
-- 
2.43.0


From a4650a3141862d35b60458140a607fc3fbba4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 029/102] fix: the zstd1-header is not read beyond the end of
 the data

---
 Src/libCZI/decoder_zstd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index cbb520d..2a3fb38 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -382,7 +382,7 @@ namespace
         }
 
         // is "chunk type 1" next?
-        if (*(ptrData + 1) == 1)
+        if (size >= 3 && *(ptrData + 1) == 1)
         {
             // yes, so now the LSB gives the information about "hiLoByteUnpackPreprocessing"
             retVal.hiLoByteUnpackPreprocessing = ((*(ptrData + 2)) & 1) == 1;
-- 
2.43.0


From 7016edf1e6409da96da643d01407b0ce03c1d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 030/102] fix: size mismatch with zstd1-compressed data using
 lo-hi-byte-packing (Bgr48, odd sizes)

---
 Src/libCZI/decoder_zstd.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 2a3fb38..8d388cc 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -275,7 +275,6 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHiLoBytePackAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
         const size_t stride = CStdBitmapData::CalcPitch(pixel_type, width);
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
@@ -292,7 +291,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,8 +306,11 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+
+            // the number of 16-bit words for which we have data (an excess byte is discarded)
+            const size_t word_count = decompressed_size / 2;
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), decompressed_size, word_count, 1, decompressed_size, bitmap_lock_info.ptrDataRoi);
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + word_count * 2, 0, expectedSize - word_count * 2);
             return bitmap;
         }
         else
@@ -331,7 +333,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), decompressed_size, decompressed_size / 2, 1, decompressed_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From 4ace69653ee4ee889690acc947e7c0942e1b8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 031/102] fix: enumerating a chunk container with more than one
 chunk (position and index of a chunk, overflow)

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..cc9f72d 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,22 +55,20 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    std::uint64_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
         // is sufficient data available?
         if (size_attachment_data < offset + 20 + chunk_info.size)
@@ -78,7 +76,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<std::uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
@@ -87,7 +85,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             break;
         }
 
-        offset += 20 + chunk_info.size;
+        offset += 20ULL + chunk_info.size;
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
         if (size_attachment_data < offset + 21)
-- 
2.43.0


From 6d637697e0525def0afb2d54899e665e0c9cfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 032/102] fix: a missing, short or oversized valid pixel mask
 chunk is reported

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index cc9f72d..5f7ed79 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -105,18 +105,30 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     }
 
     ChunkInfo chunk_info_valid_pixel_mask;
+    bool valid_pixel_mask_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &valid_pixel_mask_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found)
+    {
+        throw LibCZIException("The chunk container does not contain a valid pixel mask.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("Insufficient size of the valid pixel mask chunk.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
@@ -152,7 +164,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid uncompressed bitonal bitmap pixel mask ");
     }
 
-    mask_info_uncompressed_bitonal_bitmap.stride = *reinterpret_cast<const std::uint32_t*>(static_cast<const uint8_t*>(mask_info_general.data.get()));
+    memcpy(&mask_info_uncompressed_bitonal_bitmap.stride, mask_info_general.data.get(), sizeof(mask_info_uncompressed_bitonal_bitmap.stride));
     Utilities::ConvertUint32ToHostByteOrder(&mask_info_uncompressed_bitonal_bitmap.stride);
     mask_info_uncompressed_bitonal_bitmap.size_data = mask_info_general.size_data - sizeof(uint32_t);
     if (mask_info_uncompressed_bitonal_bitmap.size_data > 0)
@@ -172,7 +184,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = static_cast<uint32_t>((static_cast<uint64_t>(mask_info.width) + 7) / 8);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
-- 
2.43.0


From 557f707fe570d23decd49825678597421627b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 033/102] fix: failing to determine size or pixel format of
 JPEG XR data is reported

---
 Src/JxrDecode/JxrDecode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/JxrDecode/JxrDecode.cpp b/Src/JxrDecode/JxrDecode.cpp
index 7e63e7a..0d10ba7 100644
--- a/Src/JxrDecode/JxrDecode.cpp
+++ b/Src/JxrDecode/JxrDecode.cpp
@@ -159,14 +159,14 @@ void JxrDecode::Decode(
     }
 
     I32 width, height;
-    upDecoder->GetSize(upDecoder.get(), &width, &height);
+    err = upDecoder->GetSize(upDecoder.get(), &width, &height);
     if (Failed(err))
     {
         ThrowJxrlibError("'decoder::GetSize' failed", err);
     }
 
     PKPixelFormatGUID pixel_format_of_decoder;
-    upDecoder->GetPixelFormat(upDecoder.get(), &pixel_format_of_decoder);
+    err = upDecoder->GetPixelFormat(upDecoder.get(), &pixel_format_of_decoder);
     if (Failed(err))
     {
         ThrowJxrlibError("'decoder::GetPixelFormat' failed", err);
-- 
2.43.0


From c3ff6396b571447d9b23fbc9cb0ea44caedadef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 034/102] fix: drawing the border of a tile does not shift the
 pixels of the tile and copes with tiles one pixel wide

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..c22a27e 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From 255cdda1804636907c553200983e340ab85b68a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 035/102] fix: the conversion from Bgr24 to Bgr48 reads 8-bit
 source pixels

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index c22a27e..53ec555 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -98,7 +98,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 4ccab240973081817cdd9d72435b9327d416c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:34 +0000
Subject: [PATCH 036/102] fix: scaling an empty source bitmap does not read
 outside of the bitmap

---
 Src/libCZI/BitmapOperations.hpp        | 6 ++++++
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 53ec555..73c3edf 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -422,6 +422,12 @@ namespace libCZI
             constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
             constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+            if (resizeInfo.srcWidth < 1 || resizeInfo.srcHeight < 1)
+            {
+                // there is nothing to be copied from an empty source bitmap
+                return;
+            }
+
             const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
             const int dstXEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..ed7465e 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -434,6 +434,12 @@ namespace
         constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
         constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+        if (resize_info.srcWidth < 1 || resize_info.srcHeight < 1)
+        {
+            // there is nothing to be copied from an empty source bitmap
+            return;
+        }
+
         const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
         const int dstXEnd = (std::min)(static_cast<int>(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
-- 
2.43.0


From 5a8a25a739572a1447e6084bd740e89f732db659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:52 +0000
Subject: [PATCH 037/102] fix: the signature of the JPEG XR codestream is
 compared without reading past the bytes read

---
 Src/JxrDecode/jxrlib/image/decode/strdec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/JxrDecode/jxrlib/image/decode/strdec.c b/Src/JxrDecode/jxrlib/image/decode/strdec.c
index ff235b3..a73abe1 100644
--- a/Src/JxrDecode/jxrlib/image/decode/strdec.c
+++ b/Src/JxrDecode/jxrlib/image/decode/strdec.c
@@ -2964,7 +2964,7 @@ Int JXRLIB_API(ReadWMIHeader)(
 // 0
     /** signature **/
     Call(pWS->Read(pWS, szMS, sizeof(szMS)));
-    FailIf(szMS != (U8*)strstr((char*)szMS, "WMPHOTO"), WMP_errUnsupportedFormat);
+    FailIf(memcmp(szMS, "WMPHOTO", 7) != 0, WMP_errUnsupportedFormat);
     //================================
     Call(JXRLIB_API(attach_SB)(pSB, pWS));
 
-- 
2.43.0


From fedb3bf5d55feab0767f81139bb181396b580bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 038/102] fix: the single-channel tile accessor honours the
 scene filter

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 14 ++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..c75c8d4 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -135,17 +135,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -161,11 +161,17 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            int indexS;
+            if (sceneFilter != nullptr && info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) && !sceneFilter->IsContained(indexS))
+            {
+                return true;
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From 5e91e46e3371d398da3c997a2916952f7945acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 039/102] fix: the visibility check does not drop tiles which
 are visible through the mask of another tile

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..3ceb396 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // (with a mask, a tile does not necessarily cover what is beneath it, so the visibility check cannot be applied)
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index c75c8d4..36aaf68 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // (with a mask, a tile does not necessarily cover what is beneath it, so the visibility check cannot be applied)
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From a54fcecc5930433aef25691a000697fbd83bb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 040/102] fix: the pyramid-layer accessor gives the background
 if the requested layer has no tile in the region

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 88d166e..598b587 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -86,7 +86,13 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
 
     const auto byLayer = CalcByLayer(subSet, pyramidInfo.minificationFactor);
     // ok, now we just have to look at our requested pyramid-layer
-    const auto& indices = byLayer.at(pyramidInfo.pyramidLayerNo).indices;
+    const auto layer = byLayer.find(pyramidInfo.pyramidLayerNo);
+    if (layer == byLayer.end())
+    {   // there is no subblock of the requested pyramid-layer, so there is nothing to do
+        return;
+    }
+
+    const auto& indices = layer->second.indices;
 
     // and now... copy...
     this->ComposeTiles(pDest, xPos, yPos, sizeOfPixelOnLayer0, static_cast<int>(indices.size()), options,
-- 
2.43.0


From 1abd5f1469e0be1ef8c202b3635b97e822f3b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 041/102] fix: the pyramid-layer accessor places tiles starting
 left of or above the region consistently

---
 .../SingleChannelPyramidLevelTileAccessor.cpp      | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 598b587..8ba5c90 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -11,6 +11,16 @@ using namespace libCZI;
 using namespace libCZI::detail;
 using namespace std;
 
+namespace
+{
+    /// Integer division rounding towards negative infinity, so that positions left of/above the ROI are mapped
+    /// consistently with those inside of the ROI.
+    int DivideRoundingDown(int value, int divisor)
+    {
+        return value / divisor - ((value % divisor != 0 && value < 0) ? 1 : 0);
+    }
+}
+
 CSingleChannelPyramidLevelTileAccessor::CSingleChannelPyramidLevelTileAccessor(const std::shared_ptr<ISubBlockRepository>& sbBlkRepository)
     : CSingleChannelAccessorBase(sbBlkRepository)
 {
@@ -122,8 +132,8 @@ void CSingleChannelPyramidLevelTileAccessor::ComposeTiles(libCZI::IBitmapData* b
                         options.maskAware);
                 out_bitmap = subblock_bitmap_data.bitmap;
                 out_mask_bitmap = subblock_bitmap_data.mask;
-                tile_x_position = (subblock_bitmap_data.subBlockInfo.logicalRect.x - xPos) / sizeOfPixel;
-                tile_y_position = (subblock_bitmap_data.subBlockInfo.logicalRect.y - yPos) / sizeOfPixel;
+                tile_x_position = DivideRoundingDown(subblock_bitmap_data.subBlockInfo.logicalRect.x - xPos, sizeOfPixel);
+                tile_y_position = DivideRoundingDown(subblock_bitmap_data.subBlockInfo.logicalRect.y - yPos, sizeOfPixel);
                 return true;
             }
 
-- 
2.43.0


From 8cbf9989329c1bb744a062731ad0689a2aad7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 042/102] fix: determining the pyramid layer terminates for
 every minification factor

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 8ba5c90..112749d 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -199,8 +199,8 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
         minFactor = static_cast<double>(logicalRect.h) / physicalSize.h;
     }
 
-    const int minFactorInt = static_cast<int>(round(minFactor));
-    int f = 1;
+    const std::int64_t minFactorInt = static_cast<std::int64_t>(round(minFactor));
+    std::int64_t f = 1;
     int layerNo = -1;
     for (int layer = 0;; layer++)
     {
@@ -210,6 +210,11 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
             break;
         }
 
+        if (minificationFactorPerLayer < 2)
+        {
+            throw invalid_argument("The minification factor must be at least 2.");
+        }
+
         f *= minificationFactorPerLayer;
     }
 
-- 
2.43.0


From 5e87732a181555ddbc86afbefe100abde0b3cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 043/102] fix: scaling up a tile paints its complete extent

---
 Src/libCZI/BitmapOperations.hpp        | 4 ++--
 Src/libCZI/BitmapOperationsBitonal.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 73c3edf..c234bad 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -440,9 +440,9 @@ namespace libCZI
             auto xMax = ((resizeInfo.srcWidth - 1 - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
 
             const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-            const int dstXEndClipped = (std::min)(static_cast<int>(std::ceil(xMax)), dstXEnd);
+            const int dstXEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(xMax)), static_cast<int>(std::ceil(resizeInfo.dstRoiX + resizeInfo.dstRoiW)) - 1), dstXEnd);
             const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-            const int dstYEndClipped = (std::min)(static_cast<int>(std::ceil(yMax)), dstYEnd);
+            const int dstYEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(yMax)), static_cast<int>(std::ceil(resizeInfo.dstRoiY + resizeInfo.dstRoiH)) - 1), dstYEnd);
 
             const auto srcWidthOverDstWidth = resizeInfo.srcRoiW / resizeInfo.dstRoiW;
             const auto srcHeightOverDstHeight = resizeInfo.srcRoiH / resizeInfo.dstRoiH;
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index ed7465e..0b1d3bc 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -452,9 +452,9 @@ namespace
         auto xMax = ((resize_info.srcWidth - 1 - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
 
         const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-        const int dstXEndClipped = (std::min)(static_cast<int>(std::ceil(xMax)), dstXEnd);
+        const int dstXEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(xMax)), static_cast<int>(std::ceil(resize_info.dstRoiX + resize_info.dstRoiW)) - 1), dstXEnd);
         const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-        const int dstYEndClipped = (std::min)(static_cast<int>(std::ceil(yMax)), dstYEnd);
+        const int dstYEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(yMax)), static_cast<int>(std::ceil(resize_info.dstRoiY + resize_info.dstRoiH)) - 1), dstYEnd);
 
         const auto srcWidthOverDstWidth = resize_info.srcRoiW / resize_info.dstRoiW;
         const auto srcHeightOverDstHeight = resize_info.srcRoiH / resize_info.dstRoiH;
-- 
2.43.0


From 9cbb8befa67a13e05a70fa2280293f154f03f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 044/102] fix: copying with a mask and a pixel type conversion
 addresses the right pixels

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 0b1d3bc..9026488 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -719,10 +719,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From 5c9953052871a7dd4adf3efc2f872b81ead47cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 045/102] fix: the sub-block cache gives the same picture with
 and without mask-awareness

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..b30cb1b 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,17 +175,21 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
-            if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
+            const bool add_to_cache = !only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed;
+
+            // note: the mask must be put into the cache in any case, because the cache may later be used in mask-aware mode
+            const auto mask = (mask_aware_mode || add_to_cache) ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
+            result.mask = mask_aware_mode ? mask : nullptr;
+            if (add_to_cache)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                cache->Add(sub_block_index, { result.bitmap, mask });
             }
         }
     }
-- 
2.43.0


From d8413916300d33ef3ab11fee7a2b6d7cd9c919c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 046/102] fix: the scaling accessor scales up the finest layer
 if the requested zoom exceeds its resolution

---
 .../SingleChannelScalingTileAccessor.cpp      | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index 3ceb396..aa95567 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -102,7 +102,9 @@ void CSingleChannelScalingTileAccessor::ScaleBlt(libCZI::IBitmapData* bmDest, fl
 
     // In order not to run into trouble with floating point precision, if the scale is exactly 1, we refrain from using the scaling operation
     //  and do instead a simple copy operation. This should ensure a pixel-accurate result if zoom is exactly 1.
-    if (zoom == 1)
+    if (zoom == 1 &&
+        static_cast<uint32_t>(sbInfo.logicalRect.w) == sbInfo.physicalSize.w &&
+        static_cast<uint32_t>(sbInfo.logicalRect.h) == sbInfo.physicalSize.h)
     {
         ScopedBitmapLockerSP srcLck{ source };
         ScopedBitmapLockerP dstLck{ bmDest };
@@ -340,17 +342,24 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
 {
     // make the pyramid-layer limit a bit smaller (5% smaller) so that right at the edge of a pyramid layer, we do not
     //  exclude subblocks which happen to have an inaccurate zoom-level (e.g. due to quantization)
-    const int idxOf1stSubBlockOfZoomGreater = CSingleChannelScalingTileAccessor::GetIdxOf1stSubBlockWithZoomGreater(sbSetSortedByZoom.subBlocks, sbSetSortedByZoom.sortedByZoom, zoom / 1.05f);
-    if (idxOf1stSubBlockOfZoomGreater < 0)
+    if (sbSetSortedByZoom.sortedByZoom.empty())
     {
-        // this means that we would need to overzoom (i.e. the requested zoom is less than the lowest level we find in the subblock-repository)
-        // TODO: this requires special consideration, for the time being -> bail out
-        // ...we end up here e.g. when lowest level does not cover all the range, so - this is not
-        //    something where we want to throw an exception
-        //throw LibCZIAccessorException("Overzoom not supported", LibCZIAccessorException::ErrorType::Unspecified);
         return;
     }
 
+    int idxOf1stSubBlockOfZoomGreater = CSingleChannelScalingTileAccessor::GetIdxOf1stSubBlockWithZoomGreater(sbSetSortedByZoom.subBlocks, sbSetSortedByZoom.sortedByZoom, zoom / 1.05f);
+    if (idxOf1stSubBlockOfZoomGreater < 0)
+    {
+        // this means that we need to overzoom (i.e. the requested zoom is larger than the zoom of all the subblocks we find in the subblock-repository
+        // for the ROI) - in this case we use the subblocks with the highest resolution which is available
+        const float highestZoom = sbSetSortedByZoom.subBlocks.at(sbSetSortedByZoom.sortedByZoom.back()).GetZoom();
+        idxOf1stSubBlockOfZoomGreater = CSingleChannelScalingTileAccessor::GetIdxOf1stSubBlockWithZoomGreater(sbSetSortedByZoom.subBlocks, sbSetSortedByZoom.sortedByZoom, highestZoom / 1.05f);
+        if (idxOf1stSubBlockOfZoomGreater < 0)
+        {
+            return;
+        }
+    }
+
     // start_iterator points into the "sortedByZoom" vector, which contains indices into the "subBlocks" vector
     std::vector<int>::const_iterator start_iterator = sbSetSortedByZoom.sortedByZoom.cbegin();
     std::advance(start_iterator, idxOf1stSubBlockOfZoomGreater);
-- 
2.43.0


From 8a6fd2c1bd9eaec99faf002ad83e54623f7871a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:21 +0000
Subject: [PATCH 047/102] fix: the borders of a scaled tile do not depend on
 numerical noise

---
 Src/libCZI/BitmapOperations.hpp        | 13 +++++++------
 Src/libCZI/BitmapOperationsBitonal.cpp | 12 ++++++------
 Src/libCZI/utilities.h                 | 13 +++++++++++++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index c234bad..35e0b15 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -6,6 +6,7 @@
 
 #include "BitmapOperations.h"
 #include "CziUtils.h"
+#include "utilities.h"
 
 #include <cmath>
 #include <cstring>
@@ -429,20 +430,20 @@ namespace libCZI
             }
 
             const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
-            const int dstXEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
+            const int dstXEnd = (std::min)(Utilities::TruncateDisregardingNoise(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
             const int dstYStart = (std::max)(static_cast<int>(resizeInfo.dstRoiY), 0);
-            const int dstYEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiY + resizeInfo.dstRoiH), resizeInfo.dstHeight - 1);
+            const int dstYEnd = (std::min)(Utilities::TruncateDisregardingNoise(resizeInfo.dstRoiY + resizeInfo.dstRoiH), resizeInfo.dstHeight - 1);
 
             auto yMin = ((0 - resizeInfo.srcRoiY) * resizeInfo.dstRoiH) / (resizeInfo.srcRoiH) + resizeInfo.dstRoiY;
             auto yMax = ((resizeInfo.srcHeight - 1 - resizeInfo.srcRoiY) * (resizeInfo.dstRoiH)) / resizeInfo.srcRoiH + resizeInfo.dstRoiY;
             auto xMin = ((0 - resizeInfo.srcRoiX) * resizeInfo.dstRoiW) / (resizeInfo.srcRoiW) + resizeInfo.dstRoiX;
             auto xMax = ((resizeInfo.srcWidth - 1 - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
 
-            const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-            const int dstXEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(xMax)), static_cast<int>(std::ceil(resizeInfo.dstRoiX + resizeInfo.dstRoiW)) - 1), dstXEnd);
-            const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-            const int dstYEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(yMax)), static_cast<int>(std::ceil(resizeInfo.dstRoiY + resizeInfo.dstRoiH)) - 1), dstYEnd);
+            const int dstXStartClipped = (std::max)(Utilities::CeilDisregardingNoise(xMin), dstXStart);
+            const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(resizeInfo.dstRoiX + resizeInfo.dstRoiW) - 1), dstXEnd);
+            const int dstYStartClipped = (std::max)(Utilities::CeilDisregardingNoise(yMin), dstYStart);
+            const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(resizeInfo.dstRoiY + resizeInfo.dstRoiH) - 1), dstYEnd);
 
             const auto srcWidthOverDstWidth = resizeInfo.srcRoiW / resizeInfo.dstRoiW;
             const auto srcHeightOverDstHeight = resizeInfo.srcRoiH / resizeInfo.dstRoiH;
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 9026488..3550836 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -441,20 +441,20 @@ namespace
         }
 
         const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
-        const int dstXEnd = (std::min)(static_cast<int>(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
+        const int dstXEnd = (std::min)(Utilities::TruncateDisregardingNoise(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
         const int dstYStart = (std::max)(static_cast<int>(resize_info.dstRoiY), 0);
-        const int dstYEnd = (std::min)(static_cast<int>(resize_info.dstRoiY + resize_info.dstRoiH), resize_info.dstHeight - 1);
+        const int dstYEnd = (std::min)(Utilities::TruncateDisregardingNoise(resize_info.dstRoiY + resize_info.dstRoiH), resize_info.dstHeight - 1);
 
         auto yMin = ((0 - resize_info.srcRoiY) * resize_info.dstRoiH) / (resize_info.srcRoiH) + resize_info.dstRoiY;
         auto yMax = ((resize_info.srcHeight - 1 - resize_info.srcRoiY) * (resize_info.dstRoiH)) / resize_info.srcRoiH + resize_info.dstRoiY;
         auto xMin = ((0 - resize_info.srcRoiX) * resize_info.dstRoiW) / (resize_info.srcRoiW) + resize_info.dstRoiX;
         auto xMax = ((resize_info.srcWidth - 1 - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
 
-        const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-        const int dstXEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(xMax)), static_cast<int>(std::ceil(resize_info.dstRoiX + resize_info.dstRoiW)) - 1), dstXEnd);
-        const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-        const int dstYEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(yMax)), static_cast<int>(std::ceil(resize_info.dstRoiY + resize_info.dstRoiH)) - 1), dstYEnd);
+        const int dstXStartClipped = (std::max)(Utilities::CeilDisregardingNoise(xMin), dstXStart);
+        const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(resize_info.dstRoiX + resize_info.dstRoiW) - 1), dstXEnd);
+        const int dstYStartClipped = (std::max)(Utilities::CeilDisregardingNoise(yMin), dstYStart);
+        const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(resize_info.dstRoiY + resize_info.dstRoiH) - 1), dstYEnd);
 
         const auto srcWidthOverDstWidth = resize_info.srcRoiW / resize_info.dstRoiW;
         const auto srcHeightOverDstHeight = resize_info.srcRoiH / resize_info.dstRoiH;
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index a0867fc..fb8c514 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <string>
+#include <cmath>
 #include <cwctype>
 #include <functional>
 #include <vector>
@@ -71,6 +72,18 @@ namespace libCZI
                 return ((r.w > 0) && (r.h > 0));
             }
 
+            /// Rounds up to the next integer, disregarding the numerical noise of a position which is meant to be exactly on an integer.
+            static int CeilDisregardingNoise(double v)
+            {
+                return static_cast<int>(std::ceil(v - 1e-6));
+            }
+
+            /// Cuts off the fractional part, disregarding the numerical noise of a position which is meant to be exactly on an integer.
+            static int TruncateDisregardingNoise(double v)
+            {
+                return static_cast<int>(v + 1e-6);
+            }
+
             static std::uint8_t clampToByte(float f)
             {
                 if (f <= 0)
-- 
2.43.0


From 9aeb4cf629d47d233043e7d0681101a973a9cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:59 +0000
Subject: [PATCH 048/102] fix: zstd compression supports line padding for all
 pixel types

---
 Src/libCZI/zstdCompress.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index c7d90bf..8e61194 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -5,12 +5,12 @@
 #include <sstream>
 #include <zstd.h>
 #include <cassert>  
+#include <cstring>
 #if (ZSTD_VERSION_MAJOR >= 1 && ZSTD_VERSION_MINOR >= 5) 
 #include <zstd_errors.h>
 #else
 #include <common/zstd_errors.h>
 #endif
-#include "BitmapOperations.h"
 #include "libCZI_compress.h"
 #include "utilities.h"
 
@@ -145,6 +145,16 @@ static void CheckTempBufferAllocArgumentsAndThrow(const std::function<void* (siz
     }
 }
 
+/// Copies the specified bitmap into the destination with "minimal stride", i.e. without any padding between the lines.
+/// This works for all pixel types.
+static void CopyWithMinimalStride(std::uint32_t sourceHeight, std::uint32_t sourceStride, size_t lineLength, const void* source, void* destination)
+{
+    for (uint32_t y = 0; y < sourceHeight; ++y)
+    {
+        memcpy(static_cast<uint8_t*>(destination) + y * lineLength, static_cast<const uint8_t*>(source) + y * static_cast<size_t>(sourceStride), lineLength);
+    }
+}
+
 size_t libCZI::ZstdCompress::CalculateMaxCompressedSizeZStd0(std::uint32_t sourceWidth, std::uint32_t sourceHeight, libCZI::PixelType sourcePixeltype)
 {
     const size_t sizeSource = static_cast<size_t>(sourceWidth) * Utils::GetBytesPerPixel(sourcePixeltype) * sourceHeight;
@@ -199,7 +209,7 @@ bool libCZI::ZstdCompress::CompressZStd0(
 
         auto deleter = [&](void* ptr) -> void {freeTempBuffer(ptr); };
         const unique_ptr<void, decltype(deleter)> upTemp(tempBuffer, deleter);
-        CBitmapOperations::Copy(sourcePixeltype, source, sourceStride, sourcePixeltype, upTemp.get(), sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype), sourceWidth, sourceHeight, false);
+        CopyWithMinimalStride(sourceHeight, sourceStride, static_cast<size_t>(sourceWidth) * Utils::GetBytesPerPixel(sourcePixeltype), source, upTemp.get());
 
         return CompressZstd(upTemp.get(), requiredSizeSource, destination, sizeDestination, parameters);
     }
@@ -289,7 +299,7 @@ bool libCZI::ZstdCompress::CompressZStd1(std::uint32_t sourceWidth, std::uint32_
             auto deleter = [&](void* ptr) -> void {freeTempBuffer(ptr); };
             const unique_ptr<void, decltype(deleter)> upTemp(tempBuffer, deleter);
 
-            CBitmapOperations::Copy(sourcePixeltype, source, sourceStride, sourcePixeltype, upTemp.get(), static_cast<uint32_t>(sourceWidth * bytesPerPel), sourceWidth, sourceHeight, false);
+            CopyWithMinimalStride(sourceHeight, sourceStride, sourceWidth * bytesPerPel, source, upTemp.get());
 
             b = CompressZstd(upTemp.get(), requiredSizeTemp, 3 + static_cast<char*>(destination), actualSizeDestination, parameters);
         }
-- 
2.43.0


From df4318aef7ff955b14422cb59db872d7ee9a8db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:59 +0000
Subject: [PATCH 049/102] fix: the check of the stride in zstd compression does
 not overflow

---
 Src/libCZI/zstdCompress.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index 8e61194..b87c246 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -103,11 +103,12 @@ static void CheckSourceBitmapArgumentsAndThrow(std::uint32_t sourceWidth, std::u
     }
 
     // note: GetBytesPerPixel will throw (an invalid_argument-exception) in case of an invalid enum value
-    if (sourceStride < sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype))
+    const uint64_t minimalStride = static_cast<uint64_t>(sourceWidth) * Utils::GetBytesPerPixel(sourcePixeltype);
+    if (sourceStride < minimalStride)
     {
         stringstream ss;
         ss << "stride is illegal, for width=" << sourceWidth << " and pixeltype=" << Utils::PixelTypeToInformalString(sourcePixeltype) << " the minimum stride is "
-            << sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype) << " whereas " << sourceStride << " was specified.";
+            << minimalStride << " whereas " << sourceStride << " was specified.";
         throw invalid_argument(ss.str());
     }
 
-- 
2.43.0


From d7913c2af08d7c9797d2a6390070be634f2214db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:59 +0000
Subject: [PATCH 050/102] fix: report surplus data of an uncompressed sub-block
 if handling of the mismatch is not requested

---
 Src/libCZI/CreateBitmap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 622dbee..1870546 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -108,6 +108,11 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     size_t size;
     auto sub_block_data = subBlk->GetRawData(ISubBlock::MemBlkType::Data, &size);
 
+    if (expected_size < size && !handle_uncompressed_data_size_mismatch)
+    {
+        throw std::logic_error("excess size of subblock");
+    }
+
     if (expected_size <= size)
     {
         CSharedPtrAllocator sharedPtrAllocator(sub_block_data);
-- 
2.43.0


From 3b6d7609b725e59d5f269d428d3afe1f312b6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 051/102] fix: scaling a region which exceeds the source bitmap
 does not replicate its edge

The end of the area painted is given by the end of the source bitmap, not by the end of the destination region.
---
 Src/libCZI/BitmapOperations.hpp        | 6 ++++--
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 35e0b15..46ef3bd 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -437,13 +437,15 @@ namespace libCZI
 
             auto yMin = ((0 - resizeInfo.srcRoiY) * resizeInfo.dstRoiH) / (resizeInfo.srcRoiH) + resizeInfo.dstRoiY;
             auto yMax = ((resizeInfo.srcHeight - 1 - resizeInfo.srcRoiY) * (resizeInfo.dstRoiH)) / resizeInfo.srcRoiH + resizeInfo.dstRoiY;
+            auto yEnd = ((resizeInfo.srcHeight - resizeInfo.srcRoiY) * (resizeInfo.dstRoiH)) / resizeInfo.srcRoiH + resizeInfo.dstRoiY;
             auto xMin = ((0 - resizeInfo.srcRoiX) * resizeInfo.dstRoiW) / (resizeInfo.srcRoiW) + resizeInfo.dstRoiX;
             auto xMax = ((resizeInfo.srcWidth - 1 - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
+            auto xEnd = ((resizeInfo.srcWidth - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
 
             const int dstXStartClipped = (std::max)(Utilities::CeilDisregardingNoise(xMin), dstXStart);
-            const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(resizeInfo.dstRoiX + resizeInfo.dstRoiW) - 1), dstXEnd);
+            const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(xEnd) - 1), dstXEnd);
             const int dstYStartClipped = (std::max)(Utilities::CeilDisregardingNoise(yMin), dstYStart);
-            const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(resizeInfo.dstRoiY + resizeInfo.dstRoiH) - 1), dstYEnd);
+            const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(yEnd) - 1), dstYEnd);
 
             const auto srcWidthOverDstWidth = resizeInfo.srcRoiW / resizeInfo.dstRoiW;
             const auto srcHeightOverDstHeight = resizeInfo.srcRoiH / resizeInfo.dstRoiH;
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 3550836..b319dd3 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -448,13 +448,15 @@ namespace
 
         auto yMin = ((0 - resize_info.srcRoiY) * resize_info.dstRoiH) / (resize_info.srcRoiH) + resize_info.dstRoiY;
         auto yMax = ((resize_info.srcHeight - 1 - resize_info.srcRoiY) * (resize_info.dstRoiH)) / resize_info.srcRoiH + resize_info.dstRoiY;
+        auto yEnd = ((resize_info.srcHeight - resize_info.srcRoiY) * (resize_info.dstRoiH)) / resize_info.srcRoiH + resize_info.dstRoiY;
         auto xMin = ((0 - resize_info.srcRoiX) * resize_info.dstRoiW) / (resize_info.srcRoiW) + resize_info.dstRoiX;
         auto xMax = ((resize_info.srcWidth - 1 - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
+        auto xEnd = ((resize_info.srcWidth - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
 
         const int dstXStartClipped = (std::max)(Utilities::CeilDisregardingNoise(xMin), dstXStart);
-        const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(resize_info.dstRoiX + resize_info.dstRoiW) - 1), dstXEnd);
+        const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(xEnd) - 1), dstXEnd);
         const int dstYStartClipped = (std::max)(Utilities::CeilDisregardingNoise(yMin), dstYStart);
-        const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(resize_info.dstRoiY + resize_info.dstRoiH) - 1), dstYEnd);
+        const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(yEnd) - 1), dstYEnd);
 
         const auto srcWidthOverDstWidth = resize_info.srcRoiW / resize_info.dstRoiW;
         const auto srcHeightOverDstHeight = resize_info.srcRoiH / resize_info.dstRoiH;
-- 
2.43.0


From 6be1289a79efd1c90ae93fe808bf07c062774c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:13 +0000
Subject: [PATCH 052/102] fix: scaling into a very large region, or one which
 ends left of or above the destination

The limits of the area painted are no longer computed with an out-of-range conversion to int, and are rounded down for negative positions.
---
 Src/libCZI/BitmapOperations.hpp        | 12 ++++++------
 Src/libCZI/BitmapOperationsBitonal.cpp | 12 ++++++------
 Src/libCZI/utilities.h                 | 24 ++++++++++++++++++++----
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 46ef3bd..649bc20 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -429,11 +429,11 @@ namespace libCZI
                 return;
             }
 
-            const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
-            const int dstXEnd = (std::min)(Utilities::TruncateDisregardingNoise(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
+            const int dstXStart = (std::max)(Utilities::ConvertToIntSaturated(resizeInfo.dstRoiX), 0);
+            const int dstXEnd = (std::min)(Utilities::FloorDisregardingNoise(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
-            const int dstYStart = (std::max)(static_cast<int>(resizeInfo.dstRoiY), 0);
-            const int dstYEnd = (std::min)(Utilities::TruncateDisregardingNoise(resizeInfo.dstRoiY + resizeInfo.dstRoiH), resizeInfo.dstHeight - 1);
+            const int dstYStart = (std::max)(Utilities::ConvertToIntSaturated(resizeInfo.dstRoiY), 0);
+            const int dstYEnd = (std::min)(Utilities::FloorDisregardingNoise(resizeInfo.dstRoiY + resizeInfo.dstRoiH), resizeInfo.dstHeight - 1);
 
             auto yMin = ((0 - resizeInfo.srcRoiY) * resizeInfo.dstRoiH) / (resizeInfo.srcRoiH) + resizeInfo.dstRoiY;
             auto yMax = ((resizeInfo.srcHeight - 1 - resizeInfo.srcRoiY) * (resizeInfo.dstRoiH)) / resizeInfo.srcRoiH + resizeInfo.dstRoiY;
@@ -443,9 +443,9 @@ namespace libCZI
             auto xEnd = ((resizeInfo.srcWidth - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
 
             const int dstXStartClipped = (std::max)(Utilities::CeilDisregardingNoise(xMin), dstXStart);
-            const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(xEnd) - 1), dstXEnd);
+            const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(xEnd - 1)), dstXEnd);
             const int dstYStartClipped = (std::max)(Utilities::CeilDisregardingNoise(yMin), dstYStart);
-            const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(yEnd) - 1), dstYEnd);
+            const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(yEnd - 1)), dstYEnd);
 
             const auto srcWidthOverDstWidth = resizeInfo.srcRoiW / resizeInfo.dstRoiW;
             const auto srcHeightOverDstHeight = resizeInfo.srcRoiH / resizeInfo.dstRoiH;
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index b319dd3..85caaf3 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -440,11 +440,11 @@ namespace
             return;
         }
 
-        const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
-        const int dstXEnd = (std::min)(Utilities::TruncateDisregardingNoise(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
+        const int dstXStart = (std::max)(Utilities::ConvertToIntSaturated(resize_info.dstRoiX), 0);
+        const int dstXEnd = (std::min)(Utilities::FloorDisregardingNoise(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
-        const int dstYStart = (std::max)(static_cast<int>(resize_info.dstRoiY), 0);
-        const int dstYEnd = (std::min)(Utilities::TruncateDisregardingNoise(resize_info.dstRoiY + resize_info.dstRoiH), resize_info.dstHeight - 1);
+        const int dstYStart = (std::max)(Utilities::ConvertToIntSaturated(resize_info.dstRoiY), 0);
+        const int dstYEnd = (std::min)(Utilities::FloorDisregardingNoise(resize_info.dstRoiY + resize_info.dstRoiH), resize_info.dstHeight - 1);
 
         auto yMin = ((0 - resize_info.srcRoiY) * resize_info.dstRoiH) / (resize_info.srcRoiH) + resize_info.dstRoiY;
         auto yMax = ((resize_info.srcHeight - 1 - resize_info.srcRoiY) * (resize_info.dstRoiH)) / resize_info.srcRoiH + resize_info.dstRoiY;
@@ -454,9 +454,9 @@ namespace
         auto xEnd = ((resize_info.srcWidth - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
 
         const int dstXStartClipped = (std::max)(Utilities::CeilDisregardingNoise(xMin), dstXStart);
-        const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(xEnd) - 1), dstXEnd);
+        const int dstXEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(xMax), Utilities::CeilDisregardingNoise(xEnd - 1)), dstXEnd);
         const int dstYStartClipped = (std::max)(Utilities::CeilDisregardingNoise(yMin), dstYStart);
-        const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(yEnd) - 1), dstYEnd);
+        const int dstYEndClipped = (std::min)((std::max)(Utilities::CeilDisregardingNoise(yMax), Utilities::CeilDisregardingNoise(yEnd - 1)), dstYEnd);
 
         const auto srcWidthOverDstWidth = resize_info.srcRoiW / resize_info.dstRoiW;
         const auto srcHeightOverDstHeight = resize_info.srcRoiH / resize_info.dstRoiH;
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index fb8c514..7996300 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <string>
 #include <cmath>
+#include <limits>
 #include <cwctype>
 #include <functional>
 #include <vector>
@@ -72,16 +73,31 @@ namespace libCZI
                 return ((r.w > 0) && (r.h > 0));
             }
 
+            /// Converts to integer (cutting off the fractional part), where a value out of the range of an int gives the nearest limit.
+            static int ConvertToIntSaturated(double v)
+            {
+                if (v >= (std::numeric_limits<int>::max)())
+                {
+                    return (std::numeric_limits<int>::max)();
+                }
+                else if (v <= (std::numeric_limits<int>::min)())
+                {
+                    return (std::numeric_limits<int>::min)();
+                }
+
+                return static_cast<int>(v);
+            }
+
             /// Rounds up to the next integer, disregarding the numerical noise of a position which is meant to be exactly on an integer.
             static int CeilDisregardingNoise(double v)
             {
-                return static_cast<int>(std::ceil(v - 1e-6));
+                return ConvertToIntSaturated(std::ceil(v - 1e-6));
             }
 
-            /// Cuts off the fractional part, disregarding the numerical noise of a position which is meant to be exactly on an integer.
-            static int TruncateDisregardingNoise(double v)
+            /// Rounds down to the next integer, disregarding the numerical noise of a position which is meant to be exactly on an integer.
+            static int FloorDisregardingNoise(double v)
             {
-                return static_cast<int>(v + 1e-6);
+                return ConvertToIntSaturated(std::floor(v + 1e-6));
             }
 
             static std::uint8_t clampToByte(float f)
-- 
2.43.0


From 199958e85dc908326238ca24aa450f91e938b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 053/102] fix: filling a region of a bitonal bitmap which is
 left of or above the bitmap, or of negative size

The end of the region was converted to an unsigned integer, so that a negative end was taken as the far end of the bitmap.
---
 Src/libCZI/BitmapOperationsBitonal.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 85caaf3..bd31185 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1051,16 +1051,17 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
-    const int w = x2 - x1;
-    const int h = y2 - y1;
+    const int x2 = static_cast<int>((std::max)((std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width)), static_cast<int64_t>(0)));
+    const int y2 = static_cast<int>((std::max)((std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height)), static_cast<int64_t>(0)));
 
-    if (w <= 0 || h <= 0)
+    if (x2 <= x1 || y2 <= y1)
     {
         return;
     }
 
+    const int w = x2 - x1;
+    const int h = y2 - y1;
+
     // first, fill the "bulk"
     const int x1RoundedUp = ((x1 + 7) / 8) * 8;
     const int wRounded = w - (x1RoundedUp - x1);
-- 
2.43.0


From 59510c2818175d49f5ee6687f5323c344952089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 054/102] fix: decimation of bitonal bitmaps

All lines of the neighbourhood are considered (also for the byte right of the DWORD processed), bits beyond the width are disregarded, and only
the bytes of the destination line are written.
---
 Src/libCZI/BitmapOperationsBitonal.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index bd31185..ba02022 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const void* ptr, int x, int width, int stride);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -191,7 +191,14 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            // only write the bytes which the line of the destination has
+            const int bitsRemainingDest = widthDest - numberOfDwords * 16;
+            if (bitsRemainingDest <= 0)
+            {
+                return;
+            }
+
+            if (bitsRemainingDest <= 8)
             {
                 *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
@@ -203,11 +210,13 @@ namespace
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const void* ptr, int x, int width, int stride)
     {
-        if (x < width)
+        // note: "x" is the index of the byte, whereas "width" is in pixels
+        const int bitsRemaining = width - x * 8;
+        if (bitsRemaining > 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            return static_cast<uint8_t>(DecimateHelpers<RegionSize>::GetDwordPartial(y, height, static_cast<const uint8_t*>(ptr) + x, (std::min)(bitsRemaining, 8), stride));
         }
 
         return 0xff;
@@ -301,7 +310,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From 2bf90f442f1c187f91db5c656c7f63a85f92699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:09 +0000
Subject: [PATCH 055/102] fix: statistics of the sub-block cache are not
 observed in the middle of another operation

---
 Src/libCZI/subblock_cache.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/subblock_cache.cpp b/Src/libCZI/subblock_cache.cpp
index 2229247..b580b66 100644
--- a/Src/libCZI/subblock_cache.cpp
+++ b/Src/libCZI/subblock_cache.cpp
@@ -16,6 +16,10 @@ std::shared_ptr<ISubBlockCache> libCZI::CreateSubBlockCache()
 ISubBlockCacheStatistics::Statistics SubBlockCache::GetStatistics(std::uint8_t mask) const
 {
     Statistics result{};
+
+    // The values must not be observed while an operation which modifies them in several steps is under way, and memory usage and
+    //  element count must be consistent - therefore we need to lock reading them.
+    lock_guard<mutex> lck(this->mutex_);
     if (mask == ISubBlockCacheStatistics::kMemoryUsage)
     {
         result.validityMask = ISubBlockCacheStatistics::kMemoryUsage;
@@ -29,9 +33,6 @@ ISubBlockCacheStatistics::Statistics SubBlockCache::GetStatistics(std::uint8_t m
     else if (mask == (ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount))
     {
         result.validityMask = ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount;
-
-        // We want to ensure that the memory usage and the element count are consistent, therefore we need to lock reading both values.
-        lock_guard<mutex> lck(this->mutex_);
         result.memoryUsage = this->cache_size_in_bytes_.load();
         result.elementsCount = this->cache_subblock_count_.load();
     }
-- 
2.43.0


From 176dd228e4a0207b06d615cbb35bf26e768f99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:07 +0000
Subject: [PATCH 056/102] fix: sub-block cache evicts in the order of use also
 if elements are added concurrently

The LRU value of an added element was taken before acquiring the lock.
---
 Src/libCZI/subblock_cache.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/subblock_cache.cpp b/Src/libCZI/subblock_cache.cpp
index b580b66..53be83e 100644
--- a/Src/libCZI/subblock_cache.cpp
+++ b/Src/libCZI/subblock_cache.cpp
@@ -56,9 +56,11 @@ ISubBlockCacheOperation::CacheItem SubBlockCache::Get(int subblock_index)
 void SubBlockCache::Add(int subblock_index, const ISubBlockCacheOperation::CacheItem& cache_item)
 {
     const auto size_of_added_cache_item = SubBlockCache::CalculateSizeInBytes(cache_item.bitmap.get(), cache_item.mask.get());
-    const auto entry_to_be_added = CacheEntry{ cache_item.bitmap, cache_item.mask, this->lru_counter_.fetch_add(1) };
 
     lock_guard<mutex> lck(this->mutex_);
+
+    // the LRU counter must be incremented with the lock held, otherwise the order of the counter values would not be the order of the operations
+    const auto entry_to_be_added = CacheEntry{ cache_item.bitmap, cache_item.mask, this->lru_counter_.fetch_add(1) };
     const auto result = this->cache_.insert({ subblock_index, entry_to_be_added });
     if (result.second)
     {
-- 
2.43.0


From dbd4138038f5aecfab11935ec003ad3496d9828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:55 +0000
Subject: [PATCH 057/102] fix: no data race between closing a reader and
 concurrent calls

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..d9475c6 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -6,6 +6,7 @@
 
 #include <functional>
 #include <memory>
+#include <atomic>
 #include <mutex>
 #include "libCZI.h"
 #include "CziSubBlockDirectory.h"
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool>   isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0


From 63af99b4f1c7a53358d95ac1c6c0a7e259dba382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:55 +0000
Subject: [PATCH 058/102] fix: an unlock which is reported as an error does not
 temporarily change the lock count of the bitmap

Concurrent calls could see a negative lock count, and have a legal unlock rejected.
---
 Src/libCZI/bitmapData.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index c150ca9..fcd338b 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -59,13 +59,14 @@ namespace libCZI
 
             void Unlock() override
             {
-                const int lckCnt = std::atomic_fetch_sub(&this->lockCnt, 1);
-                if (lckCnt < 1)
+                int lckCnt = std::atomic_load(&this->lockCnt);
+                do
                 {
-                    // we undo the decrement of lockCnt (from above) here
-                    std::atomic_fetch_add(&this->lockCnt, 1);
-                    throw std::logic_error("Lock/Unlock-semantic was violated.");
-                }
+                    if (lckCnt < 1)
+                    {
+                        throw std::logic_error("Lock/Unlock-semantic was violated.");
+                    }
+                } while (!std::atomic_compare_exchange_weak(&this->lockCnt, &lckCnt, lckCnt - 1));
             }
 
             int GetLockCount() const override
-- 
2.43.0


From 1a7ebc757326be7100f4631883212f757cc2fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:12 +0000
Subject: [PATCH 059/102] fix: multi-channel composition with a black point
 below 0 or a white point above 1 does not wrap around

---
 Src/libCZI/MultiChannelCompositor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 5da9b83..56d51f3 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -442,7 +442,8 @@ private:
     template <typename tValue, int maxValue>
     struct CGetBlackWhitePtBase
     {
-        tValue blackPt, whitePt;
+        // note: the points may lie outside of the range of the pixel values, so a type with a larger range is used here
+        int blackPt, whitePt;
 
         bool CheckBlackWhite(tValue& v, uint8_t& pixelValue) const
         {
@@ -478,8 +479,8 @@ private:
 
         CGetBlackWhitePtBase(float blackPt, float whitePt)
         {
-            this->blackPt = static_cast<tValue>(std::ceil(blackPt * maxValue));
-            this->whitePt = static_cast<tValue>(std::floor(whitePt * maxValue));
+            this->blackPt = static_cast<int>(std::ceil(blackPt * maxValue));
+            this->whitePt = static_cast<int>(std::floor(whitePt * maxValue));
         };
     };
 
-- 
2.43.0


From 47e1dafd9a4b613aaca204157f813c716e79aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:25 +0000
Subject: [PATCH 060/102] fix: multi-channel composition with very large
 weights does not overflow the sum of the weights

---
 Src/libCZI/MultiChannelCompositor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 56d51f3..19a06e8 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1102,7 +1102,7 @@ private:
     /// \return True if the weight parameter needs to be handled, false otherwise. Only if true, the meanWeightPerChannel argument is valid.
     static bool CalcWeightSum(int channelCount, const Compositors::ChannelInfo* channelInfos, float& meanWeightPerChannel)
     {
-        float sum = 0;
+        double sum = 0;
         for (int i = 0; i < channelCount; ++i)
         {
             float w = (channelInfos + i)->weight;
@@ -1115,7 +1115,7 @@ private:
                     GetSite()->Log(LOGLEVEL_WARNING, str);
                 }
 
-                sum = std::numeric_limits<float>::quiet_NaN();
+                sum = std::numeric_limits<double>::quiet_NaN();
                 break;
             }
 
@@ -1128,7 +1128,7 @@ private:
                     GetSite()->Log(LOGLEVEL_WARNING, str);
                 }
 
-                sum = std::numeric_limits<float>::quiet_NaN();
+                sum = std::numeric_limits<double>::quiet_NaN();
                 break;
             }
 
@@ -1140,7 +1140,7 @@ private:
             return false;
         }
 
-        meanWeightPerChannel = sum / channelCount;
+        meanWeightPerChannel = static_cast<float>(sum / channelCount);
 
         // if the mean is different to at least one weight (i. e. if they are not all the same), than we have to 
         // honor the weights
-- 
2.43.0


From ebb5ddf3b5813cf7233e6d5e16a930bb33c11690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:09 +0000
Subject: [PATCH 061/102] fix: multi-channel composition reports null source
 bitmaps and invalid look-up table sizes as an error

---
 Src/libCZI/MultiChannelCompositor.cpp | 32 ++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 19a06e8..f96b979 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1053,6 +1053,13 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (srcBitmaps[i] == nullptr)
+            {
+                stringstream ss;
+                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
+                throw std::invalid_argument(ss.str());
+            }
+
             if (srcBitmaps[i]->GetWidth() != dest->GetWidth() || srcBitmaps[i]->GetHeight() != dest->GetHeight())
             {
                 throw std::invalid_argument("All the source bitmaps must have same width/height as destination.");
@@ -1061,14 +1068,7 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (srcBitmaps[i] == nullptr)
-            {
-                stringstream ss;
-                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
-                throw std::invalid_argument(ss.str());
-            }
-
-            if (channelInfos[i].lookUpTableElementCount > 0)
+            if (IsUsingLut(channelInfos + i))
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
                 {
@@ -1267,6 +1267,20 @@ private:
         }
     }
 public:
+    /// Check that there is a first source bitmap (from which the size of a newly allocated destination bitmap is taken).
+    static void CheckSourceBitmaps(int channelCount, libCZI::IBitmapData* const* srcBitmaps)
+    {
+        if (channelCount <= 0)
+        {
+            throw std::invalid_argument("channelCount must be >0");
+        }
+
+        if (srcBitmaps == nullptr || srcBitmaps[0] == nullptr)
+        {
+            throw std::invalid_argument("srcBitmaps==nullptr or srcBitmaps[0]==nullptr");
+        }
+    }
+
     static void ComposeMultiChannel_Bgr24(
         libCZI::IBitmapData* dest,
         int channelCount,
@@ -1313,6 +1327,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CMultiChannelCompositor2::CheckSourceBitmaps(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgr24, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgr24(bmDest.get(), channelCount, srcBitmaps, channelInfos);
     return bmDest;
@@ -1324,6 +1339,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CMultiChannelCompositor2::CheckSourceBitmaps(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgra32, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgra32(bmDest.get(), alphaVal, channelCount, srcBitmaps, channelInfos);
     return bmDest;
-- 
2.43.0


From cadfa6880b5857a26386d6f073b6811fe9cec02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 062/102] fix: look-up tables have the requested size for any
 black-point and white-point

---
 Src/libCZI/libCZI_Utilities.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 3bb0066..6cc8d9e 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -203,21 +203,25 @@ static double CalcSplineValue(double x, const std::vector<libCZI::IDisplaySettin
     int blackVal = static_cast<int>(tableElementCnt * blackPoint);
     int whiteVal = static_cast<int>(tableElementCnt * whitePoint);
 
-    for (int i = 0; i < blackVal; ++i)
+    // black-point and white-point may be outside of the range 0..1 (or in reversed order), the table always has the specified size
+    const int startOfCurve = (std::min)((std::max)(blackVal, 0), tableElementCnt);
+    const int endOfCurve = (std::min)((std::max)(whiteVal, startOfCurve), tableElementCnt);
+
+    for (int i = 0; i < startOfCurve; ++i)
     {
         lut.emplace_back(0);
     }
 
-    for (int i = blackVal; i < whiteVal; ++i)
+    for (int i = startOfCurve; i < endOfCurve; ++i)
     {
-        double x = (i - blackVal) / static_cast<double>(whiteVal - blackVal - 1);
+        double x = (i - blackVal) / static_cast<double>((std::max)(whiteVal - blackVal - 1, 1));
         double s = CalcSplineValue(x, splineData);
         int is = static_cast<int>(s * 255);
         std::uint8_t value = (is < 0 ? 0 : is>255 ? 255 : static_cast<std::uint8_t>(is));
         lut.emplace_back(value);
     }
 
-    for (int i = whiteVal; i < tableElementCnt; ++i)
+    for (int i = endOfCurve; i < tableElementCnt; ++i)
     {
         lut.emplace_back(255);
     }
@@ -285,7 +289,12 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
     int lowOut = static_cast<int>(blackPoint * tableElementCnt);
     int highOut = static_cast<int>(whitePoint * tableElementCnt);
 
-    for (int i = 0; i < lowOut; ++i)
+    // black-point and white-point may be outside of the range 0..1 (or in reversed order), the table always has the specified size
+    const int startOfCurve = (std::min)((std::max)(lowOut, 0), tableElementCnt);
+    const int endOfCurve = (std::min)((std::max)(highOut, startOfCurve), tableElementCnt);
+    const tFloat rangeOfCurve = static_cast<tFloat>((std::max)(highOut - lowOut - 1, 1));
+
+    for (int i = 0; i < startOfCurve; ++i)
     {
         lut.emplace_back(0);
     }
@@ -299,9 +308,9 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
         tFloat a = GetParameterForToeSlopeAdjustment(gamma);
         tFloat denumeratorToeSlope = (std::pow(a + 1, gamma) - 1);
 
-        for (int i = lowOut; i < highOut; ++i)
+        for (int i = startOfCurve; i < endOfCurve; ++i)
         {
-            tFloat x = (i - lowOut) / tFloat(highOut - lowOut - 1);
+            tFloat x = (i - lowOut) / rangeOfCurve;
 
             tFloat val = maxOut * (pow(a * x + 1, gamma) - 1) / denumeratorToeSlope;
             if (val > maxOut)
@@ -319,9 +328,9 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
     }
     else
     {
-        for (int i = lowOut; i < highOut; ++i)
+        for (int i = startOfCurve; i < endOfCurve; ++i)
         {
-            tFloat x = (i - lowOut) / tFloat(highOut - lowOut - 1);
+            tFloat x = (i - lowOut) / rangeOfCurve;
             tFloat val = maxOut * pow(x, gamma);
             if (val > maxOut)
             {
@@ -337,7 +346,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
         }
     }
 
-    for (int i = highOut; i < tableElementCnt; ++i)
+    for (int i = endOfCurve; i < tableElementCnt; ++i)
     {
         lut.emplace_back(maxOut);
     }
-- 
2.43.0


From 3dd84492f27470f4552683cf6fd6bed2e76897ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:26 +0000
Subject: [PATCH 063/102] fix: spline without inner control points is a
 straight line

---
 Src/libCZI/splines.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/splines.cpp b/Src/libCZI/splines.cpp
index 9cea7f6..f15ecff 100644
--- a/Src/libCZI/splines.cpp
+++ b/Src/libCZI/splines.cpp
@@ -73,7 +73,12 @@ using namespace std;
         rhs[i] = 3 * ((dy2 / dx2) - (dy1 / dx1));
     }
 
-    VectorXd resultVector = matrix.colPivHouseholderQr().solve(rhs);
+    // with two points only there are no unknowns (the spline is a straight line)
+    VectorXd resultVector;
+    if (n > 1)
+    {
+        resultVector = matrix.colPivHouseholderQr().solve(rhs);
+    }
 
     // Resolve the coefficients for the spline curve.
     double x_i = 0;
-- 
2.43.0


From 7de5f5fd1dde187d6e49f9c7584b28575f79d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:07 +0000
Subject: [PATCH 064/102] fix: coordinate string with a negative 10-digit
 number with leading zeros is parsed

---
 Src/libCZI/DimCoordinate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 7161769..fde0d13 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -99,9 +99,9 @@ public:
 private:
     static bool Int_ParseCoordinate(const char* str, int& charsParsedOk, DimensionIndex& dimIdx, int& value)
     {
-        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign , that's 11 altogether
-        // plus the trailing zero, which gives us 12
-        constexpr int MAX_CHARS_FOR_NUMBER = 11;
+        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign and one for a leading zero, that's 12 altogether
+        // plus the trailing zero, which gives us 13
+        constexpr int MAX_CHARS_FOR_NUMBER = 12;
         char number[MAX_CHARS_FOR_NUMBER + 1];
         int numberPos = 0;
         charsParsedOk = 0;
-- 
2.43.0


From 247df95cca3b8c1b5f42715f6fe576d4378a8ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:07 +0000
Subject: [PATCH 065/102] fix: bounds string with characters which are not part
 of the syntax is rejected

---
 Src/libCZI/DimCoordinate.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index fde0d13..253900e 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -3,6 +3,8 @@
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
 #include "libCZI.h"
+#include <algorithm>
+#include <cctype>
 #include <climits>
 #include <regex>
 
@@ -43,7 +45,7 @@ public:
     static CDimBounds ParseBounds(const char* str)
     {
         string s(str);
-        regex bounds_regex(R"((?:([a-zA-Z])(?:([\+|-]?[0-9]+):([\+|-]?[0-9]+))\s*))");
+        regex bounds_regex(R"((?:([a-zA-Z])(?:([\+-]?[0-9]+):([\+-]?[0-9]+))\s*))");
 
         std::regex_iterator<std::string::iterator> it(s.begin(), s.end(), bounds_regex);
         std::regex_iterator<std::string::iterator> end;
@@ -55,6 +57,13 @@ public:
         {
             if (it->size() == 4)
             {
+                // there must be nothing but white-space in front of (or in between) the matches
+                const auto textBeforeMatch = it->prefix().str();
+                if (!std::all_of(textBeforeMatch.cbegin(), textBeforeMatch.cend(), [](char c)->bool { return isspace(static_cast<unsigned char>(c)) != 0; }))
+                {
+                    throw LibCZIStringParseException("Bounds-string did not parse", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+                }
+
                 auto dimMatch = it->operator[](1);
                 auto dimIdx = Utils::CharToDimension(dimMatch.str()[0]);
                 if (dimIdx == DimensionIndex::invalid)
-- 
2.43.0


From 46da7833e103fd6824fa14a2b1838045b9fe22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:07 +0000
Subject: [PATCH 066/102] fix: index-set string with a sign but no number is
 rejected

---
 Src/libCZI/IndexSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..3d3dec1 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -163,6 +163,12 @@ second_part_done:
     }
     else
     {
+        if (str.find_first_of(L"0123456789") == std::wstring::npos)
+        {
+            // there is only a sign, but no number
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         long int liValue = wcstol(str.c_str(), nullptr, 10);
         if (liValue == (std::numeric_limits<long int>::max)() || liValue == (std::numeric_limits<long int>::min)())
         {
-- 
2.43.0


From 4f8e132c581d8a40512d40e670678a5c6fac23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:07 +0000
Subject: [PATCH 067/102] fix: enumeration of coordinates for dimensions of
 size zero, and at the end of the integer range

---
 Src/libCZI/libCZI_Utilities.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 6cc8d9e..9b93be3 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -635,16 +635,25 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 
     CDimCoordinate coord;
     std::vector<DimensionIndex> dims;
+    bool isAnyDimensionWithoutElements = false;
     bounds.EnumValidDimensions(
         [&](libCZI::DimensionIndex dim, int start, int size)->bool
         {
-            (void)size;
+            if (size <= 0)
+            {
+                isAnyDimensionWithoutElements = true;
+            }
 
             coord.Set(dim, start);
             dims.push_back(dim);
             return true;
         });
 
+    if (isAnyDimensionWithoutElements)
+    {
+        return true;
+    }
+
     uint64_t coordNo = 0;
     for (;;)
     {
@@ -661,7 +670,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
             int minVal, sizeVal;
             bounds.TryGetInterval(dims[i], &minVal, &sizeVal);
 
-            if (v < minVal + sizeVal - 1)
+            if (static_cast<int64_t>(v) - minVal < sizeVal - 1)
             {
                 ++v;
                 coord.Set(dims[i], v);
-- 
2.43.0


From fdc045ffb6752dcfbe5f2c0aca2aacdd2e05ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:14 +0000
Subject: [PATCH 068/102] fix: memory stream reports zero bytes when reading
 past its end

---
 Src/libCZI/StreamImpl.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index f1388ed..28f99c1 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -145,17 +145,13 @@ CStreamImplInMemory::CStreamImplInMemory(libCZI::IAttachment* attachement)
         throw std::invalid_argument("Pointer cannot be null");
     }
 
-    if (offset >= this->dataBufferSize)
+    // Read only to the end of buffer size - and reading past the end is not an error, it gives zero bytes
+    const size_t sizeToCopy = offset < this->dataBufferSize ? static_cast<size_t>((std::min)(size, static_cast<std::uint64_t>(this->dataBufferSize - offset))) : 0;
+    if (sizeToCopy > 0)
     {
-        std::stringstream ss;
-        ss << "Error reading from memory at offset " << offset << " -> requested size: " << size << " bytes, which exceeds actual data size " << this->dataBufferSize << " bytes.";
-        throw std::runtime_error(ss.str());
+        std::memcpy(pv, static_cast<const char*>(rawData.get()) + offset, sizeToCopy);
     }
 
-    // Read only to the end of buffer size
-    const size_t sizeToCopy = (std::min)((size_t)size, (size_t)(this->dataBufferSize - offset));
-
-    std::memcpy(pv, static_cast<const char*>(rawData.get()) + offset, sizeToCopy);
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = sizeToCopy;
-- 
2.43.0


From b1adbdbb831981c37ce8b3de7c45e2dc4bc27b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:14 +0000
Subject: [PATCH 069/102] fix: file streams based on pread/pwrite complete
 requests which the operating system completes partially or interrupts

---
 Src/libCZI/StreamImpl.cpp                     | 71 +++++++++++++------
 .../StreamsLib/preadfileinputstream.cpp       | 25 +++++--
 2 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index 28f99c1..89bfdce 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -22,6 +22,34 @@ using namespace libCZI::detail;
 
 #if LIBCZI_USE_PREADPWRITEBASED_STREAMIMPL
 
+/// Write all of the specified data at the specified position - the operating system may complete a request only
+/// partially, or interrupt it. In case of an error an exception is thrown.
+static std::uint64_t WriteToFile(int fileDescriptor, std::uint64_t offset, const void* pv, std::uint64_t size)
+{
+    std::uint64_t bytesWritten = 0;
+    while (bytesWritten < size)
+    {
+        const ssize_t count = pwrite(fileDescriptor, static_cast<const std::uint8_t*>(pv) + bytesWritten, size - bytesWritten, offset + bytesWritten);
+        if (count > 0)
+        {
+            bytesWritten += count;
+        }
+        else if (count == 0)
+        {
+            break;
+        }
+        else if (errno != EINTR)
+        {
+            const auto err = errno;
+            std::stringstream ss;
+            ss << "Error writing to file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+    }
+
+    return bytesWritten;
+}
+
 COutputStreamImplPwrite::COutputStreamImplPwrite(const wchar_t* filename, bool overwriteExisting)
     : fileDescriptor(0)
 {
@@ -55,14 +83,7 @@ COutputStreamImplPwrite::~COutputStreamImplPwrite()
 
 /*virtual*/void COutputStreamImplPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
-    if (bytesWritten < 0)
-    {
-        auto err = errno;
-        std::stringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
-    }
+    const uint64_t bytesWritten = WriteToFile(this->fileDescriptor, offset, pv, size);
 
     if (ptrBytesWritten != nullptr)
     {
@@ -278,13 +299,26 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
-    if (bytesRead < 0)
+    // the operating system may complete a request only partially, or interrupt it
+    uint64_t bytesRead = 0;
+    while (bytesRead < size)
     {
-        auto err = errno;
-        ostringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t count = pread(this->fileDescriptor, static_cast<uint8_t*>(pv) + bytesRead, size - bytesRead, offset + bytesRead);
+        if (count > 0)
+        {
+            bytesRead += count;
+        }
+        else if (count == 0)
+        {
+            break;  // end of file
+        }
+        else if (errno != EINTR)
+        {
+            const auto err = errno;
+            ostringstream ss;
+            ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
     }
 
     if (ptrBytesRead != nullptr)
@@ -295,14 +329,7 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
-    if (bytesWritten < 0)
-    {
-        auto err = errno;
-        ostringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
-    }
+    const uint64_t bytesWritten = WriteToFile(this->fileDescriptor, offset, pv, size);
 
     if (ptrBytesWritten != nullptr)
     {
diff --git a/Src/libCZI/StreamsLib/preadfileinputstream.cpp b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
index 5959f10..cb20703 100644
--- a/Src/libCZI/StreamsLib/preadfileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
@@ -42,13 +42,26 @@ PreadFileInputStream::~PreadFileInputStream()
 
 /*virtual*/void PreadFileInputStream::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
-    if (bytesRead < 0)
+    // the operating system may complete a request only partially, or interrupt it
+    std::uint64_t bytesRead = 0;
+    while (bytesRead < size)
     {
-        auto err = errno;
-        std::stringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t count = pread(this->fileDescriptor, static_cast<std::uint8_t*>(pv) + bytesRead, size - bytesRead, offset + bytesRead);
+        if (count > 0)
+        {
+            bytesRead += count;
+        }
+        else if (count == 0)
+        {
+            break;  // end of file
+        }
+        else if (errno != EINTR)
+        {
+            const auto err = errno;
+            std::stringstream ss;
+            ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
     }
 
     if (ptrBytesRead != nullptr)
-- 
2.43.0


From a00ca418772c9edac296c255ac4c0d407c6b63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:14 +0000
Subject: [PATCH 070/102] fix: C-runtime based input stream reports read
 errors, and completes interrupted reads

---
 .../StreamsLib/simplefileinputstream.cpp      | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/simplefileinputstream.cpp b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
index 084d0c8..3d3470c 100644
--- a/Src/libCZI/StreamsLib/simplefileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
@@ -4,6 +4,7 @@
 
 #include "simplefileinputstream.h"
 #include "../utilities.h"
+#include <cerrno>
 #include <iomanip>
 #include <sstream>
 #include <mutex>
@@ -75,7 +76,26 @@ SimpleFileInputStream::~SimpleFileInputStream()
         throw std::runtime_error(ss.str());
     }
 
-    const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);
+    std::uint64_t bytesRead = 0;
+    for (;;)
+    {
+        bytesRead += fread(static_cast<uint8_t*>(pv) + bytesRead, 1, static_cast<size_t>(size - bytesRead), this->fp_);
+        if (bytesRead == size || ferror(this->fp_) == 0)
+        {
+            break;
+        }
+
+        // fewer bytes because of an error (and not because of the end of the file)
+        const auto err = errno;
+        clearerr(this->fp_);
+        if (err != EINTR)
+        {
+            stringstream ss;
+            ss << "Error reading from file at position " << offset << ", errno=" << err << ".";
+            throw std::runtime_error(ss.str());
+        }
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
-- 
2.43.0


From 9293fdd45109fcf72588c4d01eb7a1b82500cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 071/102] fix: C-runtime based output stream does not overwrite
 an existing file which cannot be opened for reading

---
 Src/libCZI/StreamImpl.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index 89bfdce..204e5c7 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -182,7 +182,6 @@ CStreamImplInMemory::CStreamImplInMemory(libCZI::IAttachment* attachement)
 //----------------------------------------------------------------------------
 CSimpleOutputStreamStreams::CSimpleOutputStreamStreams(const wchar_t* filename, bool overwriteExisting) : fp(nullptr)
 {
-    // TODO: check if file exists -> x subspecifier? http://www.cplusplus.com/reference/cstdio/fopen/ or stat -> https://stackoverflow.com/questions/230062/whats-the-best-way-to-check-if-a-file-exists-in-c-cross-platform/230070#230070
 #if defined(_WIN32)
     if (overwriteExisting == false)
     {
@@ -209,19 +208,8 @@ CSimpleOutputStreamStreams::CSimpleOutputStreamStreams(const wchar_t* filename,
     // convert the wchar_t to an UTF8-string
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
-    if (overwriteExisting == false)
-    {
-        FILE* testFp = fopen(filename_utf8.c_str(), "rb");
-        if (testFp != nullptr)
-        {
-            fclose(testFp);
-            std::stringstream ss;
-            ss << "Error opening the file \"" << filename_utf8 << "\" for writing because it already exists.";
-            throw std::runtime_error(ss.str());
-        }
-    }
-
-    this->fp = fopen(filename_utf8.c_str(), "wb");
+    // with the "x"-specifier the operation fails if the file already exists
+    this->fp = fopen(filename_utf8.c_str(), overwriteExisting ? "wb" : "wbx");
     if (!this->fp)
     {
         err = errno;
-- 
2.43.0


From 1e28ad04d13862a3e3907bc9630d83394366b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 072/102] fix: C-runtime based output streams report errors,
 complete interrupted writes, and the input-output stream is writable

---
 Src/libCZI/StreamImpl.cpp | 64 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index 204e5c7..f14e8fd 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -180,6 +180,30 @@ CStreamImplInMemory::CStreamImplInMemory(libCZI::IAttachment* attachement)
 }
 
 //----------------------------------------------------------------------------
+
+/// Write all of the specified data at the current position. If this is not possible, an exception is thrown.
+static std::uint64_t WriteToFile(FILE* fp, const void* pv, std::uint64_t size)
+{
+    std::uint64_t bytesWritten = 0;
+    while (bytesWritten < size)
+    {
+        bytesWritten += fwrite(static_cast<const std::uint8_t*>(pv) + bytesWritten, 1, static_cast<size_t>(size - bytesWritten), fp);
+        if (bytesWritten < size)
+        {
+            const auto err = errno;
+            clearerr(fp);
+            if (err != EINTR)
+            {
+                ostringstream ss;
+                ss << "Error writing to file, errno=" << err << ".";
+                throw std::runtime_error(ss.str());
+            }
+        }
+    }
+
+    return bytesWritten;
+}
+
 CSimpleOutputStreamStreams::CSimpleOutputStreamStreams(const wchar_t* filename, bool overwriteExisting) : fp(nullptr)
 {
 #if defined(_WIN32)
@@ -227,6 +251,9 @@ CSimpleOutputStreamStreams::CSimpleOutputStreamStreams(const wchar_t* filename,
 #endif
         throw std::runtime_error(ss.str());
     }
+
+    // no buffering: an error must not be discovered after the write-operation has been reported as successful
+    setvbuf(this->fp, nullptr, _IONBF, 0);
 }
 
 CSimpleOutputStreamStreams::~CSimpleOutputStreamStreams()
@@ -250,10 +277,10 @@ void CSimpleOutputStreamStreams::Write(std::uint64_t offset, const void* pv, std
         throw std::runtime_error(ss.str());
     }
 
-    const std::uint64_t bytesRead = fwrite(pv, 1, (size_t)size, this->fp);
+    const std::uint64_t bytesWritten = WriteToFile(this->fp, pv, size);
     if (ptrBytesWritten != nullptr)
     {
-        *ptrBytesWritten = bytesRead;
+        *ptrBytesWritten = bytesWritten;
     }
 }
 
@@ -408,16 +435,15 @@ CSimpleInputOutputStreamImplWindows::CSimpleInputOutputStreamImplWindows(const w
 
 CSimpleInputOutputStreamImpl::CSimpleInputOutputStreamImpl(const wchar_t* filename)
 {
-    // TODO: check if file exists -> x subspecifier? http://www.cplusplus.com/reference/cstdio/fopen/ or stat -> https://stackoverflow.com/questions/230062/whats-the-best-way-to-check-if-a-file-exists-in-c-cross-platform/230070#230070
 #if defined(_WIN32)
-    errno_t err = _wfopen_s(&this->fp, filename, L"rwb");
+    errno_t err = _wfopen_s(&this->fp, filename, L"r+b");
 #else
     int /*error_t*/ err = 0;
 
     // convert the wchar_t to an UTF8-string
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
-    this->fp = fopen(filename_utf8.c_str(), "rwb");
+    this->fp = fopen(filename_utf8.c_str(), "r+b");
     if (!this->fp)
     {
         err = errno;
@@ -435,6 +461,9 @@ CSimpleInputOutputStreamImpl::CSimpleInputOutputStreamImpl(const wchar_t* filena
 #endif
         throw std::runtime_error(ss.str());
     }
+
+    // no buffering: an error must not be discovered after the write-operation has been reported as successful
+    setvbuf(this->fp, nullptr, _IONBF, 0);
 }
 
 CSimpleInputOutputStreamImpl::~CSimpleInputOutputStreamImpl()
@@ -458,10 +487,10 @@ void CSimpleInputOutputStreamImpl::Write(std::uint64_t offset, const void* pv, s
         throw std::runtime_error(ss.str());
     }
 
-    const std::uint64_t bytesRead = fwrite(pv, 1, (size_t)size, this->fp);
+    const std::uint64_t bytesWritten = WriteToFile(this->fp, pv, size);
     if (ptrBytesWritten != nullptr)
     {
-        *ptrBytesWritten = bytesRead;
+        *ptrBytesWritten = bytesWritten;
     }
 }
 
@@ -481,7 +510,26 @@ void CSimpleInputOutputStreamImpl::Write(std::uint64_t offset, const void* pv, s
         throw std::runtime_error(ss.str());
     }
 
-    const std::uint64_t bytesRead = fread(pv, 1, (size_t)size, this->fp);
+    std::uint64_t bytesRead = 0;
+    for (;;)
+    {
+        bytesRead += fread(static_cast<std::uint8_t*>(pv) + bytesRead, 1, static_cast<size_t>(size - bytesRead), this->fp);
+        if (bytesRead == size || ferror(this->fp) == 0)
+        {
+            break;
+        }
+
+        // fewer bytes because of an error (and not because of the end of the file)
+        const auto err = errno;
+        clearerr(this->fp);
+        if (err != EINTR)
+        {
+            ostringstream ss;
+            ss << "Error reading from file at position " << offset << ", errno=" << err << ".";
+            throw std::runtime_error(ss.str());
+        }
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
-- 
2.43.0


From 21e95336b308c990ce8510cdb265aeda1a0f159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:59 +0000
Subject: [PATCH 073/102] fix: http stream does not deliver data which is not
 at the requested position (error pages, ignored range-request)

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 7177ad4..c45fef7 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -5,6 +5,8 @@
 #include "curlhttpinputstream.h"
 #if LIBCZI_CURL_BASED_STREAM_AVAILABLE
 #include <cstdint>
+#include <limits>
+#include <locale>
 #include <string>
 #include <sstream>
 #include "../libCZI_StreamsLib.h"
@@ -248,7 +250,8 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
     }
 
     stringstream ss;
-    ss << offset << "-" << offset + size - 1;
+    ss.imbue(std::locale::classic());   // the syntax of a range-request must not depend on the global locale
+    ss << offset << "-" << (size - 1 <= (numeric_limits<uint64_t>::max)() - offset ? offset + (size - 1) : (numeric_limits<uint64_t>::max)());
 
     {
         std::lock_guard<std::mutex> lck(this->request_mutex_);
@@ -271,6 +274,20 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
         ThrowIfCurlSetOptError(return_code, "CURLOPT_WRITEDATA");
 
         return_code = curl_easy_perform(this->curl_handle_);
+
+        long response_code = 0;
+        curl_easy_getinfo(this->curl_handle_, CURLINFO_RESPONSE_CODE, &response_code);
+        if (response_code == 416 && (return_code == CURLE_OK || return_code == CURLE_WRITE_ERROR))
+        {
+            // "Range Not Satisfiable" - this is what we get when reading past the end of the document, and the payload is not data from the document
+            if (ptrBytesRead != nullptr)
+            {
+                *ptrBytesRead = 0;
+            }
+
+            return;
+        }
+
         if (return_code != CURLE_OK)
         {
             ss = stringstream{};
@@ -278,6 +295,15 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
             throw runtime_error(ss.str());
         }
 
+        // With a status other than success, the payload (e.g. an error page) is not data from the document. And, if the server ignored the range
+        //  (which means that it responds with "200" instead of "206"), then the payload starts at the beginning of the document.
+        if (response_code >= 300 || (response_code == 200 && offset != 0))
+        {
+            ss = stringstream{};
+            ss << "The server responded to the range-request with status " << response_code << ".";
+            throw runtime_error(ss.str());
+        }
+
         if (ptrBytesRead != nullptr)
         {
             *ptrBytesRead = write_data_context.count_data_received;
@@ -305,7 +331,7 @@ CurlHttpInputStream::~CurlHttpInputStream()
 
     if (write_data_context->count_data_received + total_size > write_data_context->size)
     {
-        return CURLE_WRITE_ERROR;
+        return 0;   // any value different to the size passed in signals an error (so, a non-zero constant must not be used here)
     }
 
     memcpy(
-- 
2.43.0


From fb036d05d374569751cfea91e53cf22fa11b8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:55 +0000
Subject: [PATCH 074/102] fix: libCZIAPI: condenser contrast in the channel
 information is the condenser contrast, not the reflector

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..615f81f 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1395,7 +1395,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
 
     {
         wstring condensor_contrast;
-        if (channel_info->TryGetReflector(&condensor_contrast))
+        if (channel_info->TryGetCondenserContrast(&condensor_contrast))
         {
             const string utf8_string = libCZI::Utils::ConvertToUtf8(condensor_contrast);
             channel_object.AddMember("condensor_contrast", rapidjson::Value(utf8_string.c_str(), allocator).Move(), allocator);
-- 
2.43.0


From c0f276d63248dcbd70c8d4705e41059f74e20b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:41 +0000
Subject: [PATCH 075/102] fix: libCZIAPI: requesting information about an
 unsupported dimension is an error (and not a success without a result)

---
 Src/libCZIAPI/src/libCZIApi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..210a41b 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1370,6 +1370,9 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
 
         break;
 
+        default:
+            // no information is available for this dimension
+            return LibCZIApi_ErrorCode_InvalidArgument;
         }
 
         return LibCZIApi_ErrorCode_OK;
-- 
2.43.0


From 855236696596c6f564535c79c452e653478ac571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 076/102] fix: libCZIAPI: no null-pointer access if a document
 has no display-settings, or none for a channel

---
 Src/libCZIAPI/src/libCZIApi.cpp        |  6 +++++
 Src/libCZIAPI/src/parameterhelpers.cpp | 31 ++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 210a41b..77db284 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1302,6 +1302,12 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            // the document does not contain display-settings
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 615f81f..e67ab2d 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -116,6 +116,11 @@ namespace
     }
 
     char* result = static_cast<char*>(AllocateMemory(size + 1));
+    if (result == nullptr)
+    {
+        throw std::bad_alloc();
+    }
+
     memcpy(result, text.c_str(), size);
     result[size] = '\0';
     return result;
@@ -1460,6 +1465,10 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     memset(&composition_channel_info, 0, sizeof(CompositionChannelInfoInterop));
 
     const auto channel_display_settings = display_settings->GetChannelDisplaySettings(channel_index);
+    if (!channel_display_settings)
+    {
+        throw std::invalid_argument("There are no display-settings for the specified channel.");
+    }
 
     if (!channel_display_settings->GetIsEnabled())
     {
@@ -1493,10 +1502,19 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
         {
             const int lutSize = sixteen_or_eight_bits_lut ? 256 * 256 : 256;
             float gamma;
-            channel_display_settings->TryGetGamma(&gamma);  // TODO(JBL): handle error, must not get 'false' here
+            if (!channel_display_settings->TryGetGamma(&gamma))
+            {
+                throw std::runtime_error("No gamma-value available.");
+            }
+
             const auto lut = libCZI::Utils::Create8BitLookUpTableFromGamma(lutSize, composition_channel_info.black_point, composition_channel_info.white_point, gamma);
             composition_channel_info.look_up_table_element_count = lutSize;
             auto p = ParameterHelpers::AllocateMemory(lutSize);
+            if (p == nullptr)
+            {
+                throw std::bad_alloc();
+            }
+
             memcpy(p, lut.data(), lutSize);
             composition_channel_info.ptr_look_up_table = static_cast<uint8_t*>(p);
         }
@@ -1506,10 +1524,19 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
         {
             const int lutSize = sixteen_or_eight_bits_lut ? 256 * 256 : 256;
             std::vector<libCZI::IDisplaySettings::SplineData> splineData;
-            channel_display_settings->TryGetSplineData(&splineData);// TODO(JBL): handle error, must not get 'false' here
+            if (!channel_display_settings->TryGetSplineData(&splineData))
+            {
+                throw std::runtime_error("No spline-data available.");
+            }
+
             const auto lut = libCZI::Utils::Create8BitLookUpTableFromSplines(lutSize, composition_channel_info.black_point, composition_channel_info.white_point, splineData);
             composition_channel_info.look_up_table_element_count = lutSize;
             auto p = ParameterHelpers::AllocateMemory(lutSize);
+            if (p == nullptr)
+            {
+                throw std::bad_alloc();
+            }
+
             memcpy(p, lut.data(), lutSize);
             composition_channel_info.ptr_look_up_table = static_cast<uint8_t*>(p);
         }
-- 
2.43.0


From c9cfe974f44f11fb3497a095ac96d7c907d44124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 077/102] fix: libCZIAPI: handles of attachments and of
 document-infos are told apart

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..6789c8b 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0xB55A1E47u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From c7429622ee7bf41530b2a38abc9cf75f63e08bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 078/102] fix: libCZIAPI: handles which have been released (or
 which are bogus) are recognized without accessing the memory they refer to

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 85 ++++++++++++++++++++++++----
 1 file changed, 75 insertions(+), 10 deletions(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index 6789c8b..4cfd70f 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -6,6 +6,8 @@
 
 #include <cstdint>
 #include <memory>
+#include <mutex>
+#include <unordered_map>
 #include <utility>
 #include <libCZI.h>
 
@@ -23,6 +25,47 @@ constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0xB55A1E47u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
+/// The registry of all handles which are currently valid (i.e. the addresses of the wrapper objects, together with their magic value).
+/// A handle passed in by the caller must not be accessed before it has been determined that it is contained in here - the memory of
+/// a wrapper object which has been destroyed may not be accessible anymore, or may have been reused for something else.
+class HandleRegistry
+{
+public:
+    static void Add(const void* handle, std::uint32_t magic)
+    {
+        auto& instance = GetInstance();
+        std::lock_guard<std::mutex> lock(instance.mutex_);
+        instance.handles_[handle] = magic;
+    }
+
+    static void Remove(const void* handle)
+    {
+        auto& instance = GetInstance();
+        std::lock_guard<std::mutex> lock(instance.mutex_);
+        instance.handles_.erase(handle);
+    }
+
+    static bool Contains(const void* handle, std::uint32_t magic)
+    {
+        auto& instance = GetInstance();
+        std::lock_guard<std::mutex> lock(instance.mutex_);
+        const auto it = instance.handles_.find(handle);
+        return it != instance.handles_.end() && it->second == magic;
+    }
+private:
+    HandleRegistry() = default;
+
+    static HandleRegistry& GetInstance()
+    {
+        // this object is deliberately never destroyed, handles may be released at any time (also from within destructors of static objects)
+        static HandleRegistry* const instance = new HandleRegistry();
+        return *instance;
+    }
+
+    std::mutex mutex_;
+    std::unordered_map<const void*, std::uint32_t> handles_;
+};
+
 // In this file we define a generic template class that can be used to wrap a shared pointer to an object.
 // This is used to provide a handle to an object, and we use a magic value to check if the handle is still valid.
 
@@ -38,21 +81,32 @@ constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 template <typename ClassT, std::uint32_t MagicValueN>
 struct SharedPtrWrapperBase
 {
-    explicit SharedPtrWrapperBase(std::shared_ptr<ClassT> shared_ptr) : magic_(MagicValueN), shared_ptr_(std::move(shared_ptr)) {}
+    explicit SharedPtrWrapperBase(std::shared_ptr<ClassT> shared_ptr) : magic_(MagicValueN), shared_ptr_(std::move(shared_ptr))
+    {
+        HandleRegistry::Add(this, MagicValueN);
+    }
+
+    SharedPtrWrapperBase(const SharedPtrWrapperBase&) = delete;
+    SharedPtrWrapperBase& operator=(const SharedPtrWrapperBase&) = delete;
 
     ~SharedPtrWrapperBase()
     {
         this->Invalidate();
     }
 
-    /// Query if this object is valid. This checks if the magic value is the expected value. If this is not the case,
-    /// this means that either the value has been invalided, or that the pointer is bogus.
+    /// Query if this object is valid. This checks whether the object is known to the registry of valid handles (with the expected
+    /// magic value). If this is not the case, this means that either the object has been invalidated (or destroyed), or that the
+    /// pointer is bogus. The object itself is not accessed.
     ///
     /// \returns    True if valid, false if not.
-    [[nodiscard]] bool IsValid() const { return this->magic_ == MagicValueN; }
+    [[nodiscard]] bool IsValid() const { return HandleRegistry::Contains(this, MagicValueN); }
 
     /// Invalidates the magic value. This is used when the handle is destroyed.
-    void Invalidate() { this->magic_ = kMagicInvalid; }
+    void Invalidate()
+    {
+        HandleRegistry::Remove(this);
+        this->magic_ = kMagicInvalid;
+    }
 
     std::uint32_t magic_;
     std::shared_ptr<ClassT> shared_ptr_;
@@ -71,7 +125,13 @@ struct SharedPtrWrapperBase
 template <typename ClassT, std::uint32_t MagicValueN>
 struct PtrWrapperBase
 {
-    explicit PtrWrapperBase(ClassT* ptr) : magic_(MagicValueN), ptr_(ptr) {}
+    explicit PtrWrapperBase(ClassT* ptr) : magic_(MagicValueN), ptr_(ptr)
+    {
+        HandleRegistry::Add(this, MagicValueN);
+    }
+
+    PtrWrapperBase(const PtrWrapperBase&) = delete;
+    PtrWrapperBase& operator=(const PtrWrapperBase&) = delete;
 
     ~PtrWrapperBase()
     {
@@ -80,14 +140,19 @@ struct PtrWrapperBase
         this->ptr_ = nullptr;
     }
 
-    /// Query if this object is valid. This checks if the magic value is the expected value. If this is not the case,
-    /// this means that either the value has been invalided, or that the pointer is bogus.
+    /// Query if this object is valid. This checks whether the object is known to the registry of valid handles (with the expected
+    /// magic value). If this is not the case, this means that either the object has been invalidated (or destroyed), or that the
+    /// pointer is bogus. The object itself is not accessed.
     ///
     /// \returns    True if valid, false if not.
-    [[nodiscard]] bool IsValid() const { return this->magic_ == MagicValueN; }
+    [[nodiscard]] bool IsValid() const { return HandleRegistry::Contains(this, MagicValueN); }
 
     /// Invalidates the magic value. This is used when the handle is destroyed.
-    void Invalidate() { this->magic_ = kMagicInvalid; }
+    void Invalidate()
+    {
+        HandleRegistry::Remove(this);
+        this->magic_ = kMagicInvalid;
+    }
 
     std::uint32_t magic_;
     ClassT* ptr_;
-- 
2.43.0


From 791d40118abfc4070310c4043f3ae11eb8aa4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:07 +0000
Subject: [PATCH 079/102] fix: libCZIAPI: sub-blocks are written with the
 specified compression mode, and the size of uncompressed data is validated as
 documented

---
 Src/libCZIAPI/src/libCZIApi.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 77db284..86fa325 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1720,10 +1720,9 @@ namespace
         add_sub_block_info_base.physicalWidth = add_sub_block_info->physical_width;
         add_sub_block_info_base.physicalHeight = add_sub_block_info->physical_height;
         add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type); // TODO(JBL): check validity
-        add_sub_block_info_base.SetCompressionMode(CompressionMode::UnCompressed);
+        add_sub_block_info_base.compressionModeRaw = add_sub_block_info->compression_mode_raw;
     }
 
-
     void WriterAddSubBlockUncompressed(const shared_ptr<ICziWriter>& writer, const AddSubBlockInfoInterop* add_sub_block_info)
     {
         AddSubBlockInfoStridedBitmap add_sub_block_info_strided_bitmap;
@@ -1731,6 +1730,17 @@ namespace
 
         FillOutAddSubBlockInfoBase(add_sub_block_info, add_sub_block_info_strided_bitmap);
 
+        if (add_sub_block_info->physical_width > 0 && add_sub_block_info->physical_height > 0)
+        {
+            // the data must be large enough for the bitmap
+            const uint64_t line_size = static_cast<uint64_t>(add_sub_block_info->physical_width) * Utils::GetBytesPerPixel(add_sub_block_info_strided_bitmap.PixelType);
+            const uint64_t size_required = static_cast<uint64_t>(add_sub_block_info->physical_height - 1) * add_sub_block_info->stride + line_size;
+            if (add_sub_block_info->data == nullptr || add_sub_block_info->stride < line_size || add_sub_block_info->size_data < size_required)
+            {
+                throw invalid_argument("The specified data is not large enough for the bitmap.");
+            }
+        }
+
         add_sub_block_info_strided_bitmap.strideBitmap = add_sub_block_info->stride;
         add_sub_block_info_strided_bitmap.ptrBitmap = add_sub_block_info->data;
 
-- 
2.43.0


From 3b539d581f3c3e37200359c1ccaf2285fd1972c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:43 +0000
Subject: [PATCH 080/102] fix: libCZIAPI: the JSON-texts are complete if a
 number is not finite, and do not depend on the global locale

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index e67ab2d..f6883a7 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -7,8 +7,13 @@
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
+#include <cmath>
 #include <regex>
 #include <iomanip>
+#include <locale>
+#include <new>
+#include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -75,11 +80,24 @@ namespace
         return true;
     }
 
+    /// A JSON-writer which writes numbers which cannot be represented with JSON (i.e. NaN and infinity) as 'null'. With the standard
+    /// writer the output would end at such a number.
+    class JsonStringWriter : public rapidjson::Writer<rapidjson::StringBuffer>
+    {
+    public:
+        explicit JsonStringWriter(rapidjson::StringBuffer& buffer) : rapidjson::Writer<rapidjson::StringBuffer>(buffer) {}
+
+        bool Double(double d)
+        {
+            return std::isfinite(d) ? rapidjson::Writer<rapidjson::StringBuffer>::Double(d) : this->Null();
+        }
+    };
+
     string ConvertToJsonString(const std::function< rapidjson::Document()>& f)
     {
         rapidjson::Document document = f();
         rapidjson::StringBuffer buffer;
-        rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
+        JsonStringWriter writer(buffer);
         document.Accept(writer);
         return buffer.GetString();
     }
@@ -88,6 +106,7 @@ namespace
     std::string ConvertColorToHexString(const libCZI::Rgb8Color& color)
     {
         std::ostringstream oss;
+        oss.imbue(std::locale::classic());
         oss << "#" << std::setw(2) << std::setfill('0') << std::hex << static_cast<int>(color.r)
             << std::setw(2) << std::setfill('0') << std::hex << static_cast<int>(color.g)
             << std::setw(2) << std::setfill('0') << std::hex << static_cast<int>(color.b);
@@ -1357,6 +1376,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
         if (channel_info->TryGetExposureTime(&exposure_time))
         {
             ostringstream string_stream;
+            string_stream.imbue(std::locale::classic());
             if (exposure_time.singleValue)
             {
                 string_stream << exposure_time.startOrSingleValue;
@@ -1432,6 +1452,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     {
         spectrum_characteristics_json_object.AddMember("type", "Ranges", allocator);
         ostringstream string_stream;
+        string_stream.imbue(std::locale::classic());
         bool is_first = true;
         for (const auto& range : spectrum_characteristics.ranges)
         {
-- 
2.43.0


From b17d9fc2d08b470fb1c774e60b9c1eeea6f68fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:43 +0000
Subject: [PATCH 081/102] fix: libCZIAPI: null-pointers given for arguments
 which are required are reported as an error

---
 Src/libCZIAPI/src/libCZIApi.cpp | 44 +++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 86fa325..d2b2f3f 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -560,11 +560,13 @@ LibCZIApiErrorCode libCZI_GetStreamClassInfo(std::int32_t index, InputStreamClas
 
 LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const char* creation_property_bag, const char* stream_identifier, InputStreamObjectHandle* stream_object)
 {
-    if (stream_class_name == nullptr || stream_object == nullptr)
+    if (stream_class_name == nullptr || stream_identifier == nullptr || stream_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
+    *stream_object = kInvalidObjectHandle;
+
     StreamsFactory::CreateStreamInfo create_stream_info;
 
     if (creation_property_bag != nullptr && *creation_property_bag != '\0')
@@ -739,13 +741,13 @@ namespace
                 if (error_info.error_message != kInvalidObjectHandle)
                 {
                     ostringstream error_message;
-                    error_message << "Error reading from external input stream. Error code: " << error_info.error_code << ". Error message: \"" << reinterpret_cast<const char*>(error_info.error_message) << "\"";
+                    error_message << "Error writing to external output stream. Error code: " << error_info.error_code << ". Error message: \"" << reinterpret_cast<const char*>(error_info.error_message) << "\"";
                     libCZI_Free(reinterpret_cast<void*>(error_info.error_message));
                     throw runtime_error(error_message.str());
                 }
                 else
                 {
-                    throw runtime_error("Error reading from external input stream.");
+                    throw runtime_error("Error writing to external output stream.");
                 }
             }
         }
@@ -759,7 +761,8 @@ namespace
 
 LibCZIApiErrorCode libCZI_CreateInputStreamFromExternal(const ExternalInputStreamStructInterop* external_input_stream_struct, InputStreamObjectHandle* stream_object)
 {
-    if (external_input_stream_struct == nullptr || stream_object == nullptr)
+    if (external_input_stream_struct == nullptr || stream_object == nullptr ||
+        external_input_stream_struct->read_function == nullptr || external_input_stream_struct->close_function == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -893,7 +896,7 @@ LibCZIApiErrorCode libCZI_SubBlockGetRawData(SubBlockObjectHandle sub_block_obje
         const auto raw_data = shared_sub_block_wrapping_object->shared_ptr_->GetRawData(mem_blk_type, &actual_size);
         *size = actual_size;
 
-        if (data != nullptr)
+        if (data != nullptr && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, static_cast<uint64_t>(actual_size)));
         }
@@ -1104,7 +1107,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1116,7 +1119,16 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     }
 
     size_t size;
-    auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
+    shared_ptr<const void> data;
+    try
+    {
+        data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
+
     if (!data)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
@@ -1125,7 +1137,7 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
     //  one byte more
     size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+    if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
     {
         ++size_to_allocate;
     }
@@ -1467,7 +1479,7 @@ LibCZIApiErrorCode libCZI_AttachmentGetRawData(AttachmentObjectHandle attachment
         size_t actual_size;
         const auto raw_data = shared_attachment_wrapping_object->shared_ptr_->GetRawData(&actual_size);
         *size = actual_size;
-        if (data != nullptr)
+        if (data != nullptr && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, actual_size));
         }
@@ -1572,7 +1584,8 @@ LibCZIApiErrorCode libCZI_ReleaseOutputStream(OutputStreamObjectHandle output_st
 
 LibCZIApiErrorCode libCZI_CreateOutputStreamFromExternal(const ExternalOutputStreamStructInterop* external_output_stream_struct, OutputStreamObjectHandle* output_stream_object)
 {
-    if (external_output_stream_struct == nullptr || output_stream_object == nullptr)
+    if (external_output_stream_struct == nullptr || output_stream_object == nullptr ||
+        external_output_stream_struct->write_function == nullptr || external_output_stream_struct->close_function == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -2002,11 +2015,16 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
     for (int i = 0; i < channelCount; ++i)
     {
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
-        if (!shared_bitmap_wrapping_object->IsValid())
+        if (source_bitmaps[i] == kInvalidObjectHandle || !shared_bitmap_wrapping_object->IsValid())
         {
             return LibCZIApi_ErrorCode_InvalidHandle;
         }
 
+        if (channel_info[i].look_up_table_element_count > 0 && channel_info[i].ptr_look_up_table == nullptr)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
         channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
     }
-- 
2.43.0


From acbd4e98291389a80d4e59110cee69d5c6b9db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:12 +0000
Subject: [PATCH 082/102] fix: reading the value of an XML-node as a number:
 terminate with trailing spaces, refuse a text without a number, and refuse
 negative numbers for unsigned types

---
 Src/libCZI/CziMetadata.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index ecbb902..d434b8d 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
 #include "CziMetadata.h"
+#include <cwctype>
 #include "CziMetadataDocumentInfo.h"
 
 using namespace libCZI::detail::pugi;
@@ -102,6 +103,20 @@ void CCziMetadata::ThrowIfXmlInvalid() const
 
 //---------------------------------------------------------------------------------
 
+/// Convert the string to an unsigned integer. "stoull" accepts a minus sign (and gives the wrapped-around value
+/// then), a negative number is out-of-range here.
+static uint64_t ConvertToUnsigned(const wstring& s, size_t* idx)
+{
+    const uint64_t v = stoull(s, idx);
+    const auto pos = s.find(L'-');
+    if (v != 0 && pos != wstring::npos && pos < *idx)
+    {
+        throw out_of_range("value was out-of-range");
+    }
+
+    return v;
+}
+
 template<typename t>
 static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
 {
@@ -113,11 +128,16 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
         try
         {
             i = t::convert(str, &posFirstCharNotParsed);
+            if (posFirstCharNotParsed == 0)
+            {
+                // there was nothing which could be converted
+                return false;
+            }
 
             // where we stopped parsing, we expect to find only spaces - otherwise we have a parse-error and return false
-            while (posFirstCharNotParsed < str.length())
+            for (; posFirstCharNotParsed < str.length(); ++posFirstCharNotParsed)
             {
-                if (!isspace(str[posFirstCharNotParsed]))
+                if (!iswspace(str[posFirstCharNotParsed]))
                 {
                     return false;
                 }
@@ -186,7 +206,7 @@ bool IXmlNodeRead::TryGetValueAsUInt32(std::uint32_t* p)
         {
             // unfortunately, on some platforms (Linux in this case) "stoul" does not seem to throw an out_of_range-exception,
             //  therefore we have this work-around
-            uint64_t v = stoull(s, idx);
+            uint64_t v = ConvertToUnsigned(s, idx);
             if (v > (numeric_limits<uint32_t>::max)())
             {
                 throw out_of_range("value was out-of-range");
@@ -234,7 +254,7 @@ bool IXmlNodeRead::TryGetValueAsUInt64(std::uint64_t* p)
         typedef uint64_t type;
         static uint64_t convert(const wstring& s, size_t* idx)
         {
-            return stoull(s, idx);
+            return ConvertToUnsigned(s, idx);
         }
     };
 
-- 
2.43.0


From d2a7acc6c92271127e76ca7f7a53e5ab9eefd3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:12 +0000
Subject: [PATCH 083/102] fix: the value of an XML-node is found if it is given
 as CDATA, follows a comment or consists of white space only

---
 Src/libCZI/CziMetadata.cpp        |  2 +-
 Src/libCZI/CziMetadataBuilder.cpp | 22 +++++++++++++++-------
 Src/libCZI/SubblockMetadata.cpp   |  2 +-
 Src/libCZI/XmlNodeWrapper.h       |  6 ++++--
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index d434b8d..54c59e3 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -16,7 +16,7 @@ CCziMetadata::CCziMetadata(libCZI::IMetadataSegment* pMdSeg)
     const void* ptrData;
     size_t size;
     pMdSeg->DangerousGetRawData(IMetadataSegment::MemBlkType::XmlMetadata, ptrData, size);
-    this->parseResult = this->doc.load_buffer(ptrData, size, pugi::parse_default, encoding_utf8);
+    this->parseResult = this->doc.load_buffer(ptrData, size, pugi::parse_default | pugi::parse_ws_pcdata_single, encoding_utf8);
     if (this->parseResult)
     {
         this->wrapper = std::unique_ptr<XmlNodeWrapperReadonly<CCziMetadata, XmlNodeWrapperThrowExcp>>(
diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 4242f62..1981f26 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -61,11 +61,13 @@ using namespace std;
 
 /*virtual*/bool CNodeWrapper::TryGetValue(std::wstring* value) const
 {
-    if (this->node.first_child().type() == xml_node_type::node_pcdata)
+    // note: the text is to be found in the first node containing character-data, comments may precede it
+    const auto text = this->node.text();
+    if (text)
     {
         if (value != nullptr)
         {
-            *value = this->node.child_value();
+            *value = text.get();
         }
 
         return true;
@@ -281,13 +283,19 @@ void CNodeWrapper::ThrowIfCannotSetValue()
 
 pugi::xml_node CNodeWrapper::GetOrCreatePcDataChild()
 {
-    auto node = this->node.find_child([=](const xml_node& n) {return n.type() == xml_node_type::node_pcdata; });
-    if (!node)
+    // all existing character-data is to be replaced
+    for (auto child = this->node.first_child(); child;)
     {
-        node = this->node.append_child(xml_node_type::node_pcdata);
+        const auto next = child.next_sibling();
+        if (child.type() == xml_node_type::node_pcdata || child.type() == xml_node_type::node_cdata)
+        {
+            this->node.remove_child(child);
+        }
+
+        child = next;
     }
 
-    return node;
+    return this->node.append_child(xml_node_type::node_pcdata);
 }
 
 /*virtual*/void CNodeWrapper::SetAttribute(const char* name, const char* value)
@@ -446,7 +454,7 @@ CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName)
 
 CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName, const std::string& xml)
 {
-    if (!this->metadataDoc.load_buffer(xml.c_str(), xml.size(), pugi::parse_default, encoding_utf8))
+    if (!this->metadataDoc.load_buffer(xml.c_str(), xml.size(), pugi::parse_default | pugi::parse_ws_pcdata_single, encoding_utf8))
     {
         throw LibCZIXmlParseException("XML is not well-formed");
     }
diff --git a/Src/libCZI/SubblockMetadata.cpp b/Src/libCZI/SubblockMetadata.cpp
index b9c34ec..77ee469 100644
--- a/Src/libCZI/SubblockMetadata.cpp
+++ b/Src/libCZI/SubblockMetadata.cpp
@@ -12,7 +12,7 @@ using namespace std;
 
 SubblockMetadata::SubblockMetadata(const char* xml, size_t xml_size)
 {
-    this->parse_result_ = this->doc_.load_buffer(xml, xml_size, pugi::parse_default, pugi::encoding_utf8);
+    this->parse_result_ = this->doc_.load_buffer(xml, xml_size, pugi::parse_default | pugi::parse_ws_pcdata_single, pugi::encoding_utf8);
     if (this->parse_result_)
     {
         this->wrapper_ = std::make_unique<XmlNodeWrapperReadonly<SubblockMetadata, XmlNodeWrapperThrowExcp>>(this->doc_.internal_object());
diff --git a/Src/libCZI/XmlNodeWrapper.h b/Src/libCZI/XmlNodeWrapper.h
index a3ac496..e04e442 100644
--- a/Src/libCZI/XmlNodeWrapper.h
+++ b/Src/libCZI/XmlNodeWrapper.h
@@ -296,11 +296,13 @@ namespace libCZI
 
             bool TryGetValue(std::wstring* value) const override
             {
-                if (this->node.first_child().type() == libCZI::detail::pugi::xml_node_type::node_pcdata)
+                // note: the text is to be found in the first node containing character-data, comments may precede it
+                const auto text = this->node.text();
+                if (text)
                 {
                     if (value != nullptr)
                     {
-                        *value = this->node.child_value();
+                        *value = text.get();
                     }
 
                     return true;
-- 
2.43.0


From 9fe2024d9f505404b389fd7e7f5e2791f82f1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 084/102] fix: a carriage-return in the value of an XML-node is
 written as a character-reference, so that it is not turned into a line-feed
 when it is parsed

---
 Src/libCZI/pugixml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/pugixml.cpp b/Src/libCZI/pugixml.cpp
index ce3e70e..f9f6cd7 100644
--- a/Src/libCZI/pugixml.cpp
+++ b/Src/libCZI/pugixml.cpp
@@ -1925,7 +1925,7 @@ PUGI_IMPL_NS_BEGIN
 
     static const unsigned char chartypex_table[256] =
     {
-        3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  2,  3,  3,     // 0-15
+        3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  3,  3,  3,     // 0-15
         3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
         0,  0,  2,  0,  0,  0,  3,  2,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
         24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  1,  0,     // 48-63
-- 
2.43.0


From ed264451f0f3ec65a83cc9a16b70c77098d43b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 085/102] fix: numbers in the metadata are written so that the
 same number is read back, and independent of the global locale

---
 Src/libCZI/CziMetadataBuilder.cpp | 16 ++++++++--------
 Src/libCZI/utilities.cpp          | 26 ++++++++++++++++++++++++++
 Src/libCZI/utilities.h            | 12 ++++++++++++
 3 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 1981f26..865a458 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -8,6 +8,7 @@
 #include <codecvt>
 #include <iomanip>
 #include <limits>
+#include <locale>
 #include "CziUtils.h"
 #include "XmlNodeWrapper.h"
 
@@ -199,19 +200,15 @@ pugi::xml_node CNodeWrapper::GetChildNodePathMustExist(const char* path)
 /*virtual*/void CNodeWrapper::SetValueDbl(double value)
 {
     this->ThrowIfCannotSetValue();
-    wstringstream ss;
-    ss << std::setprecision(numeric_limits<double>::digits10) << value;
     auto pcdata = this->GetOrCreatePcDataChild();
-    pcdata.set_value(ss.str().c_str());
+    pcdata.set_value(Utilities::convertUtf8ToWchar_t(Utilities::NumberToString(value).c_str()).c_str());
 }
 
 /*virtual*/void CNodeWrapper::SetValueFlt(float value)
 {
     this->ThrowIfCannotSetValue();
-    wstringstream ss;
-    ss << std::setprecision(numeric_limits<float>::digits10) << value;
     auto pcdata = this->GetOrCreatePcDataChild();
-    pcdata.set_value(ss.str().c_str());
+    pcdata.set_value(Utilities::convertUtf8ToWchar_t(Utilities::NumberToString(value).c_str()).c_str());
 }
 
 /*virtual*/void CNodeWrapper::RemoveChildren()
@@ -618,6 +615,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
 
     stringstream ss;
+    ss.imbue(locale::classic());
     ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
@@ -812,7 +810,7 @@ bool libCZI::XmlDateTime::IsValid() const
                 ss << ' ';
             }
 
-            ss << std::setprecision(numeric_limits<double>::digits10) << v;
+            ss << Utilities::NumberToString(v);
         }
 
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/Positions/List/Offsets")->SetValue(ss.str().c_str());
@@ -860,7 +858,7 @@ bool libCZI::XmlDateTime::IsValid() const
                 ss << ' ';
             }
 
-            ss << std::setprecision(numeric_limits<double>::digits10) << v;
+            ss << Utilities::NumberToString(v);
         }
 
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/List/Offsets")->SetValue(ss.str().c_str());
@@ -990,6 +988,7 @@ static void WriteChannelDisplaySettings(const IChannelDisplaySetting* channel_di
         if (channel_display_setting->TryGetSplineControlPoints(&spline_control_points))
         {
             ostringstream string_stream;
+            string_stream.imbue(locale::classic());
             string_stream << setprecision(numeric_limits<double>::max_digits10 + 2) << scientific;
             bool is_first_iteration = true;
             for (auto it = spline_control_points.cbegin(); it != spline_control_points.cend(); ++it)
@@ -1012,6 +1011,7 @@ static void WriteChannelDisplaySettings(const IChannelDisplaySetting* channel_di
 static bool TryRetrieveIdAndNameAttributeFromChannels(IXmlNodeRw* root, int channelNo, wstring& channelId, wstring& channelName)
 {
     stringstream ss;
+    ss.imbue(locale::classic());
     ss << "Metadata/Information/Image/Dimensions/Channels/Channel[" << channelNo << "]";
     auto channelNode = root->GetChildNodeReadonly(ss.str().c_str());
     if (channelNode)
diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..0b7f675 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -52,6 +52,32 @@ using namespace libCZI::detail;
     return hex_digits[nibble & 0x0f];
 }
 
+template <typename tNumber>
+static string NumberToStringImpl(tNumber value)
+{
+    // use the precision which is usually sufficient, unless the number cannot be recovered from the text
+    for (int precision = numeric_limits<tNumber>::digits10; ; ++precision)
+    {
+        ostringstream ss;
+        ss.imbue(locale::classic());
+        ss << setprecision(precision) << value;
+        if (precision >= numeric_limits<tNumber>::max_digits10 || static_cast<tNumber>(strtod(ss.str().c_str(), nullptr)) == value)
+        {
+            return ss.str();
+        }
+    }
+}
+
+/*static*/std::string Utilities::NumberToString(double value)
+{
+    return NumberToStringImpl(value);
+}
+
+/*static*/std::string Utilities::NumberToString(float value)
+{
+    return NumberToStringImpl(value);
+}
+
 template <class tString>
 tString trimImpl(const tString& str, const tString& whitespace)
 {
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index 7996300..14a3469 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -131,6 +131,18 @@ namespace libCZI
             static std::uint8_t HexCharToInt(char c);
             static char NibbleToHexChar(std::uint8_t nibble);
 
+            /// Convert the number to a string, which gives exactly the same number when parsed (provided that it is finite).
+            /// The decimal point is always '.', irrespective of the locale.
+            /// \param value The number.
+            /// \returns The string representation.
+            static std::string NumberToString(double value);
+
+            /// Convert the number to a string, which gives exactly the same number when parsed (provided that it is finite).
+            /// The decimal point is always '.', irrespective of the locale.
+            /// \param value The number.
+            /// \returns The string representation.
+            static std::string NumberToString(float value);
+
             static std::string Trim(const std::string& str, const std::string& whitespace = " \t");
             static std::wstring Trim(const std::wstring& str, const std::wstring& whitespace = L" \t");
 
-- 
2.43.0


From 694379b0e471bf90c6c5d59faf33c9a74e551537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 086/102] fix: the weight of a channel is written with the
 display-settings

---
 Src/libCZI/CziMetadataBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 865a458..18374ee 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -949,6 +949,13 @@ static void WriteChannelDisplaySettings(const IChannelDisplaySetting* channel_di
 {
     node->GetOrCreateChildNode("IsSelected")->SetValueBool(channel_display_setting->GetIsEnabled());
 
+    const float weight = channel_display_setting->GetWeight();
+    if (weight != 1)
+    {
+        // a weight of one is the default if the node is not present
+        node->GetOrCreateChildNode("Weight")->SetValueFlt(weight);
+    }
+
     Rgb8Color tinting_color;
     if (channel_display_setting->TryGetTintingColorRgb8(&tinting_color))
     {
-- 
2.43.0


From f252855043bdc817b8410dc1f8ecc938c3f784ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 087/102] fix: the id and the name of a channel can contain any
 character in the metadata prepared by the writer

---
 Src/libCZI/CziMetadataBuilder.cpp | 49 +++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 18374ee..95829bf 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -509,29 +509,60 @@ CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName, const std:
     }
 }
 
+/// Gets the "Channel"-node with the specified attributes, it is created if it does not exist.
+static std::shared_ptr<libCZI::IXmlNodeRw> GetOrCreateChannelNode(libCZI::IXmlNodeRw* channelsNode, const std::wstring& id, bool nameIsValid, const std::wstring& name)
+{
+    for (int i = 0; ; ++i)
+    {
+        auto node = channelsNode->GetChildNode(("Channel[" + to_string(i) + "]").c_str());
+        if (!node)
+        {
+            break;
+        }
+
+        wstring attribute;
+        if (node->TryGetAttribute(L"Id", &attribute) && attribute == id &&
+            (!nameIsValid || (node->TryGetAttribute(L"Name", &attribute) && attribute == name)))
+        {
+            return node;
+        }
+    }
+
+    auto node = channelsNode->AppendChildNode("Channel");
+    node->SetAttribute(L"Id", id.c_str());
+    if (nameIsValid)
+    {
+        node->SetAttribute(L"Name", name.c_str());
+    }
+
+    return node;
+}
+
 /*static*/void CMetadataPrepareHelper::FillDimensionChannel(
     libCZI::ICziMetadataBuilder* builder,
     int channelIdxStart, int channelIdxSize,
     const PixelTypeForChannelIndexStatistic& pixelTypeForChannel,
     const std::function<std::tuple<std::string, std::tuple<bool, std::string>>(int channelIdx)>& getIdAndName)
 {
-    auto root = builder->GetRootNode();
+    std::shared_ptr<IXmlNodeRw> channelsNode;
 
     PixelType pxlTypeForImagePixelType = PixelType::Invalid;
     for (int ch = channelIdxStart; ch < channelIdxStart + channelIdxSize; ++ch)
     {
         auto idAndOptionalName = getIdAndName(ch);
-        string s{ "Metadata/Information/Image/Dimensions/Channels/Channel[Id=" };
-        s.append(get<0>(idAndOptionalName));
-        if (get<0>(get<1>(idAndOptionalName)) == true)
+        if (!channelsNode)
         {
-            s.append(",Name=");
-            s.append(get<1>(get<1>(idAndOptionalName)));
+            channelsNode = builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Image/Dimensions/Channels");
         }
 
-        s.append("]");
+        const bool nameIsValid = get<0>(get<1>(idAndOptionalName));
 
-        const auto channelNode = root->GetOrCreateChildNode(s.c_str());
+        // note: the id and the name can contain any character, so they must not be made part of a path
+        const auto channelNode = GetOrCreateChannelNode(
+            channelsNode.get(),
+            Utilities::convertUtf8ToWchar_t(get<0>(idAndOptionalName).c_str()),
+            nameIsValid,
+            nameIsValid ? Utilities::convertUtf8ToWchar_t(get<1>(get<1>(idAndOptionalName)).c_str()) : wstring());
 
         auto pxlTypeIterator = pixelTypeForChannel.GetChannelIndexPixelTypeMap().find(ch);
         if (pxlTypeIterator != pixelTypeForChannel.GetChannelIndexPixelTypeMap().end())
@@ -541,7 +572,7 @@ CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName, const std:
             PixelType pxlType = CziUtils::PixelTypeFromInt(pxlTypeInt);
             if (CMetadataPrepareHelper::TryConvertToXmlMetadataPixelTypeString(pxlType, pixelTypeString))
             {
-                auto pixelTypeNode = channelNode->AppendChildNode("PixelType");
+                auto pixelTypeNode = channelNode->GetOrCreateChildNode("PixelType");
                 pixelTypeNode->SetValue(pixelTypeString.c_str());
             }
 
-- 
2.43.0


From 44b9ea62d3ee12268c8c40ff16959f4ad1ceb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 088/102] fix: the information about the dimensions Z and T
 which is written with MetadataUtils is found when reading, and is consistent
 (start position of Z, either interval or list)

---
 Src/libCZI/CziMetadataBuilder.cpp      | 18 +++++++++++++++++-
 Src/libCZI/CziMetadataDocumentInfo.cpp | 12 ++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 95829bf..fc35e76 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -798,6 +798,16 @@ bool libCZI::XmlDateTime::IsValid() const
     }
 }
 
+/// The positions are either given by an interval or by a list, so the other one has to be removed (if present).
+static void RemoveDimensionPositions(ICziMetadataBuilder* builder, const char* path, const char* nodeName)
+{
+    auto node = builder->GetRootNode()->GetChildNode(path);
+    if (node)
+    {
+        node->RemoveChild(nodeName);
+    }
+}
+
 /*static*/void libCZI::MetadataUtils::WriteDimInfoT_Interval(ICziMetadataBuilder* builder, const XmlDateTime* startTime, double startOffSet, double increment)
 {
     if (startTime != nullptr)
@@ -808,11 +818,13 @@ bool libCZI::XmlDateTime::IsValid() const
 
     if (!isnan(startOffSet) && !isinf(startOffSet))
     {
+        RemoveDimensionPositions(builder, "Metadata/Information/Dimensions/T/Positions", "List");
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/Positions/Interval/Start")->SetValueDbl(startOffSet);
     }
 
     if (!isnan(increment) && !isinf(increment))
     {
+        RemoveDimensionPositions(builder, "Metadata/Information/Dimensions/T/Positions", "List");
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/Positions/Interval/Increment")->SetValueDbl(increment);
     }
 }
@@ -844,6 +856,7 @@ bool libCZI::XmlDateTime::IsValid() const
             ss << Utilities::NumberToString(v);
         }
 
+        RemoveDimensionPositions(builder, "Metadata/Information/Dimensions/T/Positions", "Interval");
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/Positions/List/Offsets")->SetValue(ss.str().c_str());
     }
 }
@@ -857,11 +870,13 @@ bool libCZI::XmlDateTime::IsValid() const
 
     if (!isnan(startOffSet) && !isinf(startOffSet))
     {
+        RemoveDimensionPositions(builder, "Metadata/Information/Dimensions/Z/Positions", "List");
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/Interval/Start")->SetValueDbl(startOffSet);
     }
 
     if (!isnan(increment) && !isinf(increment))
     {
+        RemoveDimensionPositions(builder, "Metadata/Information/Dimensions/Z/Positions", "List");
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/Interval/Increment")->SetValueDbl(increment);
     }
 }
@@ -870,7 +885,7 @@ bool libCZI::XmlDateTime::IsValid() const
 {
     if (!isnan(startPos) && !isinf(startPos))
     {
-        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/StartTime")->SetValueDbl(startPos);
+        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/StartPosition")->SetValueDbl(startPos);
     }
 
     if (funcGetOffsets)
@@ -892,6 +907,7 @@ bool libCZI::XmlDateTime::IsValid() const
             ss << Utilities::NumberToString(v);
         }
 
+        RemoveDimensionPositions(builder, "Metadata/Information/Dimensions/Z/Positions", "Interval");
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/List/Offsets")->SetValue(ss.str().c_str());
     }
 }
diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 0b6e4cf..c4f9702 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -207,6 +207,12 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 /*virtual*/std::shared_ptr<IDimensionZInfo> CCziMetadataDocumentInfo::GetDimensionZInfo()
 {
     auto dimZnode = this->GetNode(L"Metadata/Information/Image/Dimensions/Z");
+    if (!dimZnode)
+    {
+        // this is where "MetadataUtils" puts the information
+        dimZnode = this->GetNode(L"Metadata/Information/Dimensions/Z");
+    }
+
     if (!dimZnode)
     {
         return std::shared_ptr<IDimensionZInfo>();
@@ -370,6 +376,12 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 /*virtual*/std::shared_ptr<IDimensionTInfo> CCziMetadataDocumentInfo::GetDimensionTInfo()
 {
     auto dimTnode = this->GetNode(L"Metadata/Information/Image/Dimensions/T");
+    if (!dimTnode)
+    {
+        // this is where "MetadataUtils" puts the information
+        dimTnode = this->GetNode(L"Metadata/Information/Dimensions/T");
+    }
+
     if (!dimTnode)
     {
         return std::shared_ptr<IDimensionTInfo>();
-- 
2.43.0


From d4210e62db2866f215f36e46c50d89b0f4f2b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 089/102] fix: the Z-drive mode is read from its own node

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index c4f9702..58cee74 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -266,7 +266,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     auto zdriveModeNode = GetNodeRelativeFromNode(dimZnode, L"ZDriveMode");
     if (!zdriveModeNode.empty())
     {
-        auto s = Utilities::Trim(zaxisDirNode.text().as_string());
+        auto s = Utilities::Trim(zdriveModeNode.text().as_string());
         if (s.compare(L"Continuous") == 0)
         {
             zinfo->SetZDriveMode(IDimensionZInfo::ZDriveMode::Continuous);
-- 
2.43.0


From f4dba26536d6f8a040318c295d26e45cd7f96061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:27 +0000
Subject: [PATCH 090/102] fix: parsing numbers and colors in the metadata copes
 with numbers out of range and with arbitrary characters

---
 Src/libCZI/CziDisplaySettings.cpp       | 28 +++++++---
 Src/libCZI/CziMetadataDocumentInfo.cpp  | 73 ++++++-------------------
 Src/libCZI/CziMetadataDocumentInfo2.cpp |  9 +--
 Src/libCZI/utilities.cpp                |  5 +-
 4 files changed, 46 insertions(+), 69 deletions(-)

diff --git a/Src/libCZI/CziDisplaySettings.cpp b/Src/libCZI/CziDisplaySettings.cpp
index 6661f86..39bbcaf 100644
--- a/Src/libCZI/CziDisplaySettings.cpp
+++ b/Src/libCZI/CziDisplaySettings.cpp
@@ -2,7 +2,9 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
-#include <cctype>
+#include <cwchar>
+#include <cwctype>
+#include <stdexcept>
 #include "CziDisplaySettings.h"
 #include "splines.h"
 #include "utilities.h"
@@ -14,6 +16,19 @@ using namespace libCZI::detail;
 
 class CCziDisplaySettingsUtils
 {
+private:
+    static double ParseNumber(const wchar_t*& szString)
+    {
+        wchar_t* end;
+        const double d = wcstod(szString, &end);
+        if (end == szString)
+        {
+            throw std::invalid_argument("invalid syntax");
+        }
+
+        szString = end;
+        return d;
+    }
 public:
     static std::vector<libCZI::IDisplaySettings::SplineControlPoint> ParseSplinePoints(const wchar_t* szString)
     {
@@ -21,18 +36,16 @@ public:
 
         // TODO: parsing not really watertight I suppose...
         std::vector<libCZI::IDisplaySettings::SplineControlPoint> splinePts;
-        size_t charsParsed;
         for (; *szString != L'\0';)
         {
             double x, y;
-            x = std::stod(szString, &charsParsed);
-            szString += charsParsed;
+            x = ParseNumber(szString);
 
             // now, skip whitespace and exactly one comma
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (iswspace(c))
                 {
                     ++szString;
                     continue;
@@ -47,15 +60,14 @@ public:
                 throw std::invalid_argument("invalid syntax");
             }
 
-            y = std::stod(szString, &charsParsed);
-            szString += charsParsed;
+            y = ParseNumber(szString);
 
             splinePts.push_back({ x,y });
 
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (iswspace(c))
                 {
                     ++szString;
                     continue;
diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 58cee74..05f4089 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -5,6 +5,8 @@
 #include "CziMetadataDocumentInfo.h"
 
 #include <cstddef>
+#include <cwchar>
+#include <cwctype>
 #include <utility>
 #include "CziDimensionInfo.h"
 #include "CziDisplaySettings.h"
@@ -15,6 +17,17 @@ using namespace libCZI;
 using namespace libCZI::detail;
 using namespace std;
 
+/// Try to parse a number, which may be followed by white space (and whatever comes behind this).
+/// \param str      The string to parse.
+/// \param [out] x  The number.
+/// \returns True if it succeeds, false if the string does not start with a number.
+static bool TryParseDouble(const std::wstring& str, double* x)
+{
+    wchar_t* end;
+    *x = wcstod(str.c_str(), &end);
+    return end != str.c_str() && (*end == L'\0' || iswspace(*end));
+}
+
 CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata> md)
     : metadata(std::move(md))
 {
@@ -283,26 +296,8 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
         auto str = Utilities::Trim(zdriveSpeedNode.text().as_string());
         if (!str.empty())
         {
-            size_t charsParsed; double x;
-            bool parsedOk = false;
-            try
-            {
-                x = std::stod(str, &charsParsed);
-                parsedOk = true;
-            }
-            catch (invalid_argument&)
-            {
-            }
-
-            if (parsedOk == true)
-            {
-                if (charsParsed < str.length() && !isspace(str[charsParsed]))
-                {
-                    parsedOk = false;
-                }
-            }
-
-            if (parsedOk)
+            double x;
+            if (TryParseDouble(str, &x))
             {
                 zinfo->SetZDriveSpeed(x);
             }
@@ -336,25 +331,8 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
             Utilities::Split(offsetsNode.text().as_string(), L' ',
                 [&](const std::wstring str)->bool
                 {
-                    size_t charsParsed;
-                    bool parsedOk = false;
                     double x;
-                    try
-                    {
-                        x = std::stod(str, &charsParsed);
-                        parsedOk = true;
-                    }
-                    catch (invalid_argument&)
-                    {
-                    }
-
-                    if (parsedOk == true)
-                    {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
-                        {
-                            parsedOk = false;
-                        }
-                    }
+                    const bool parsedOk = TryParseDouble(str, &x);
 
                     // TODO: currently, we stop parsing at the first syntax error and return what we have so far without an 
                     //        external error - what is the desired behavior here?
@@ -426,25 +404,8 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
             Utilities::Split(offsetsNode.text().as_string(), L' ',
                 [&](const std::wstring str)->bool
                 {
-                    size_t charsParsed;
-                    bool parsedOk = false;
                     double x;
-                    try
-                    {
-                        x = std::stod(str, &charsParsed);
-                        parsedOk = true;
-                    }
-                    catch (invalid_argument&)
-                    {
-                    }
-
-                    if (parsedOk == true)
-                    {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
-                        {
-                            parsedOk = false;
-                        }
-                    }
+                    const bool parsedOk = TryParseDouble(str, &x);
 
                     // TODO: currently, we stop parsing at the first syntax error and return what we have so far without an 
                     //        external error - what is the desired behavior here?
diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 9b99814..046a3f1 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
 #include <limits>
+#include <cwctype>
 #include "CziMetadataDocumentInfo.h"
 #include "CziMetadataDocumentInfo2.h"
 
@@ -1815,12 +1816,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
@@ -1852,12 +1853,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 0b7f675..f32d923 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -8,6 +8,9 @@
 #include <codecvt>
 #include <sstream>
 #include <cstring>
+#include <cwctype>
+#include <iomanip>
+#include <limits>
 #include <array>
 #if LIBCZI_WINDOWSAPI_AVAILABLE || LIBCZI_WINDOWS_UWPAPI_AVAILABLE
 #include <Windows.h>
@@ -260,7 +263,7 @@ tString trimImpl(const tString& str, const tString& whitespace)
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
         for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]) || str[i] > 0x7f)
             {
                 return false;
             }
-- 
2.43.0


From a03fd45aa20aaec656a7f15c8b52368f3fa4610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 091/102] fix: date/time of the metadata: negative years and
 offsets are written correctly, leap seconds are parsed, and arbitrary texts
 can be given for parsing

---
 Src/libCZI/CziMetadataBuilder.cpp | 149 ++++++++++++++++++++----------
 1 file changed, 99 insertions(+), 50 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index fc35e76..5034984 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -647,7 +647,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
 
     stringstream ss;
     ss.imbue(locale::classic());
-    ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
+    ss << ((this->year < 0) ? "-" : "") << setfill('0') << setw(4) << std::abs(this->year) << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
     {
@@ -655,7 +655,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
     else if (this->HasTimeZoneOffset())
     {
-        ss << ((this->offsetHours >= 0) ? "+" : "") << setw(2) << this->offsetHours << ':' << setw(2) << this->offsetMinutes;
+        ss << ((this->offsetHours >= 0) ? "+" : "-") << setw(2) << std::abs(this->offsetHours) << ':' << setw(2) << this->offsetMinutes;
     }
 
     return ss.str();
@@ -681,82 +681,131 @@ bool libCZI::XmlDateTime::IsValid() const
 
 /*static*/bool libCZI::XmlDateTime::TryParse(const wchar_t* szw, libCZI::XmlDateTime* ptrDateTime)
 {
-    std::wstring_convert<std::codecvt_utf8<wchar_t>> utf8_conv;
-    return XmlDateTime::TryParse(utf8_conv.to_bytes(szw).c_str(), ptrDateTime);
+    // all characters with which a date/time can be expressed are ASCII-characters
+    string str;
+    for (; *szw != L'\0'; ++szw)
+    {
+        if (*szw < 0 || *szw > 0x7f)
+        {
+            return false;
+        }
+
+        str.push_back(static_cast<char>(*szw));
+    }
+
+    return XmlDateTime::TryParse(str.c_str(), ptrDateTime);
 }
 
 /*static*/bool libCZI::XmlDateTime::TryParse(const char* sz, libCZI::XmlDateTime* ptrDateTime)
 {
+    // The grammar is: -?([1-9][0-9]*)?[0-9]{4}-MM-DDThh:mm:ss(.[0-9]+)?(Z|[+-]hh:mm)?
     // cf. https://www.oreilly.com/library/view/regular-expressions-cookbook/9781449327453/ch04s07.html
-    static const char* regexStr = R"((-?(?:[1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9])(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
-
-    auto str = Utilities::Trim(sz);
-    regex dateTimeRegex(regexStr);
-    smatch pieces_match;
-    if (regex_match(str, pieces_match, dateTimeRegex) && pieces_match.size() == 9)
-    {
-        XmlDateTime dateTime;
-        dateTime.Clear();
+    const auto str = Utilities::Trim(sz);
+    const char* p = str.c_str();
 
-        if (pieces_match[1].matched)
+    const auto isDigit = [](char c)->bool { return c >= '0' && c <= '9'; };
+    const auto tryParseTwoDigits = [&](int* value)->bool
         {
-            dateTime.year = std::stoi(pieces_match[1]);
-        }
+            if (!isDigit(p[0]) || !isDigit(p[1]))
+            {
+                return false;
+            }
 
-        if (pieces_match[2].matched)
+            *value = (p[0] - '0') * 10 + (p[1] - '0');
+            p += 2;
+            return true;
+        };
+    const auto tryParseChar = [&](char c)->bool
         {
-            dateTime.mon = std::stoi(pieces_match[2]);
-        }
+            if (*p != c)
+            {
+                return false;
+            }
+
+            ++p;
+            return true;
+        };
 
-        if (pieces_match[3].matched)
+    XmlDateTime dateTime;
+    dateTime.Clear();
+
+    const bool isYearNegative = tryParseChar('-');
+    int countOfYearDigits = 0;
+    for (; isDigit(*p); ++p)
+    {
+        // a year with more than four digits is out of the range we can represent
+        if (++countOfYearDigits > 4)
         {
-            dateTime.mday = std::stoi(pieces_match[3]);
+            return false;
         }
 
-        if (pieces_match[4].matched)
+        dateTime.year = dateTime.year * 10 + (*p - '0');
+    }
+
+    if (countOfYearDigits != 4)
+    {
+        return false;
+    }
+
+    if (isYearNegative)
+    {
+        dateTime.year = -dateTime.year;
+    }
+
+    if (!tryParseChar('-') || !tryParseTwoDigits(&dateTime.mon) ||
+        !tryParseChar('-') || !tryParseTwoDigits(&dateTime.mday) ||
+        !tryParseChar('T') || !tryParseTwoDigits(&dateTime.hour) ||
+        !tryParseChar(':') || !tryParseTwoDigits(&dateTime.min) ||
+        !tryParseChar(':') || !tryParseTwoDigits(&dateTime.sec))
+    {
+        return false;
+    }
+
+    if (tryParseChar('.'))
+    {
+        // note that we skip the decimal places of "second"...
+        if (!isDigit(*p))
         {
-            dateTime.hour = std::stoi(pieces_match[4]);
+            return false;
         }
 
-        if (pieces_match[5].matched)
+        while (isDigit(*p))
         {
-            dateTime.min = std::stoi(pieces_match[5]);
+            ++p;
         }
+    }
 
-        if (pieces_match[6].matched)
+    if (tryParseChar('Z'))
+    {
+        dateTime.isUTC = true;
+    }
+    else if (*p == '+' || *p == '-')
+    {
+        const bool isOffsetNegative = *p++ == '-';
+        if (!tryParseTwoDigits(&dateTime.offsetHours) || dateTime.offsetHours > 23 ||
+            !tryParseChar(':') ||
+            !tryParseTwoDigits(&dateTime.offsetMinutes) || dateTime.offsetMinutes > 59)
         {
-            dateTime.sec = std::stoi(pieces_match[6]);
+            return false;
         }
 
-        // note that we skip the decimal places of "second"...
-
-        if (pieces_match[8].matched)
+        if (isOffsetNegative)
         {
-            auto strTimezone = pieces_match[8].str();
-            char _1stChar = strTimezone[0];
-            if (_1stChar == 'Z')
-            {
-                dateTime.isUTC = true;
-            }
-            else if ((_1stChar == '+' || _1stChar == '-') && strTimezone.length() >= 6)
-            {
-                dateTime.offsetHours = std::stoi(strTimezone.substr(0, 3));
-                dateTime.offsetMinutes = std::stoi(strTimezone.substr(4, 2));
-            }
+            dateTime.offsetHours = -dateTime.offsetHours;
         }
+    }
 
-        if (dateTime.IsValid())
-        {
-            if (ptrDateTime != nullptr)
-            {
-                *ptrDateTime = dateTime;
-            }
+    if (p != str.c_str() + str.size() || !dateTime.IsValid())
+    {
+        return false;
+    }
 
-            return true;
-        }
+    if (ptrDateTime != nullptr)
+    {
+        *ptrDateTime = dateTime;
     }
 
-    return false;
+    return true;
 }
 
 /*static*/void libCZI::MetadataUtils::WriteImageSizeInformation(libCZI::ICziMetadataBuilder* builder, int width, int height)
-- 
2.43.0


From a2b44cb1be8ab30df56fb8b4be58d108e1612f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 092/102] fix: a negative number is not accepted for the end of
 an exposure-time range

---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 046a3f1..b66ae58 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -850,6 +850,18 @@ void CDimensionChannelInfo::ParseInformation(pugi::xml_node node)
     }
 }
 
+/// Parse an unsigned integer - as "std::stoull", but a sign is not accepted (std::stoull gives the two's complement
+/// for a negative number).
+static uint64_t ParseUInt64(const wchar_t* sz, size_t* countOfCharactersParsed)
+{
+    if (*sz < L'0' || *sz > L'9')
+    {
+        throw std::invalid_argument("not an unsigned integer");
+    }
+
+    return std::stoull(sz, countOfCharactersParsed, 10);
+}
+
 /*static*/bool CDimensionChannelInfo::TryParseRangeOrSingleValue(const std::wstring& str, libCZI::RangeOrSingleValue<std::uint64_t>* rangeOrSingleValue)
 {
     // preconditions:
@@ -860,7 +872,7 @@ void CDimensionChannelInfo::ParseInformation(pugi::xml_node node)
         if (str[0] == L'-')
         {
             size_t s;
-            uint64_t end = std::stoull(str.c_str() + 1, &s, 10);
+            uint64_t end = ParseUInt64(str.c_str() + 1, &s);
             if (1 + s == str.length())
             {
                 rangeOrSingleValue->singleValue = false;
@@ -872,7 +884,7 @@ void CDimensionChannelInfo::ParseInformation(pugi::xml_node node)
         else
         {
             size_t s;
-            uint64_t start = std::stoull(str.c_str(), &s, 10);
+            uint64_t start = ParseUInt64(str.c_str(), &s);
             if (s < str.length())
             {
                 if (str[s] != L'-')
@@ -890,7 +902,7 @@ void CDimensionChannelInfo::ParseInformation(pugi::xml_node node)
                 else
                 {
                     size_t s2;
-                    uint64_t end = std::stoull(str.c_str() + s + 1, &s2, 10);
+                    uint64_t end = ParseUInt64(str.c_str() + s + 1, &s2);
                     if (1 + s + s2 == str.length())
                     {
                         rangeOrSingleValue->singleValue = false;
-- 
2.43.0


From 880acbd9dc0d34275e0aba2e8dd6751ee0cca2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:20 +0000
Subject: [PATCH 093/102] fix: the text of coordinates, bounds and channel ids
 does not depend on the global locale

---
 Src/libCZI/CziWriter.cpp        | 1 +
 Src/libCZI/libCZI_Utilities.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index b1ef3e1..4a44964 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -1075,6 +1075,7 @@ void CCziWriter::ThrowIfAlreadyInitialized() const
 /*static*/std::tuple<std::string, std::tuple<bool, std::string>> CCziWriter::DefaultGenerateChannelIdAndName(int chIdx)
 {
     stringstream ssId;
+    ssId.imbue(locale::classic());
     ssId << "Channel:" << chIdx;
     return make_tuple(ssId.str(), make_tuple(false, string()));
 }
diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 9b93be3..7ca412a 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -487,6 +487,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 /*static*/std::string Utils::DimCoordinateToString(const libCZI::IDimCoordinate* coord)
 {
     stringstream ss;
+    ss.imbue(locale::classic());
     for (int i = static_cast<int>(libCZI::DimensionIndex::MinDim); i <= static_cast<int>(libCZI::DimensionIndex::MaxDim); ++i)
     {
         int value;
@@ -523,6 +524,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 /*static*/std::string Utils::DimBoundsToString(const libCZI::IDimBounds* bounds)
 {
     stringstream ss;
+    ss.imbue(locale::classic());
     for (int i = static_cast<int>(libCZI::DimensionIndex::MinDim); i <= static_cast<int>(libCZI::DimensionIndex::MaxDim); ++i)
     {
         int start, size;
-- 
2.43.0


From 7981525a834f591c4717de7aa0c84449a39b3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:24 +0000
Subject: [PATCH 094/102] fix: the order of sub-blocks in the writer's
 directory is well-defined for positions up to the limits of the number range

The comparison subtracted the positions; the overflow made the order
inconsistent, and duplicates went undetected.
---
 Src/libCZI/CziSubBlockDirectory.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index b1dda83..9e594cf 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -530,24 +530,14 @@ bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEnt
     // 4th check: the x-y-position
     if (a.IsMIndexValid() == false && b.IsMIndexValid() == false)
     {
-        int v = a.x - b.x;
-        if (v < 0)
+        if (a.x != b.x)
         {
-            return true;
-        }
-        if (v > 0)
-        {
-            return false;
+            return a.x < b.x;
         }
 
-        v = a.y - b.y;
-        if (v < 0)
+        if (a.y != b.y)
         {
-            return true;
-        }
-        if (v > 0)
-        {
-            return false;
+            return a.y < b.y;
         }
     }
 
-- 
2.43.0


From 9cd8f17e18e7819f6138f2be63b2d026fbaa9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:03 +0000
Subject: [PATCH 095/102] fix: a strided bitmap given to the reader-writer is
 stored without the padding of its lines

The padding was written as part of the pixel data (and read beyond the
last line); now it is as with the writer.
---
 Src/libCZI/CziWriter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 155d08c..1c14042 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -107,15 +107,16 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbBlkInfoStrideBitmap);
 
-                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * addSbBlkInfoStrideBitmap.strideBitmap;
+                const size_t lineSize = addSbBlkInfoStrideBitmap.physicalWidth * static_cast<size_t>(CziUtils::GetBytesPerPel(addSbBlkInfoStrideBitmap.PixelType));
+                addSbInfo.sizeData = addSbBlkInfoStrideBitmap.physicalHeight * lineSize;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
                     {
                         (void)offset;
 
                         if (callCnt < addSbBlkInfoStrideBitmap.physicalHeight)
                         {
-                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * addSbBlkInfoStrideBitmap.strideBitmap;
-                            size = addSbBlkInfoStrideBitmap.strideBitmap;
+                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * static_cast<size_t>(addSbBlkInfoStrideBitmap.strideBitmap);
+                            size = lineSize;
                             return true;
                         }
 
-- 
2.43.0


From 6dbfa624746c5faf8e053317bd549cc39c06ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:59 +0000
Subject: [PATCH 096/102] fix: a plane coordinate at the upper limit of the
 number range is not refused as being out of range

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index b30cb1b..060e14c 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -63,7 +63,7 @@ void CSingleChannelAccessorBase::CheckPlaneCoordinates(const libCZI::IDimCoordin
             }
             else
             {
-                if (co < start || co >= start + size)
+                if (co < start || co >= static_cast<std::int64_t>(start) + size)
                 {
                     stringstream ss;
                     ss << "Coordinate for dimension '" << Utils::DimensionToChar(d) << "' is out-of-range.";
-- 
2.43.0


From 89774905ecdb38f471ba59985f1c944944e695ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:59 +0000
Subject: [PATCH 097/102] fix: the writer accepts a coordinate at the upper
 limit of the number range if it is inside the declared bounds

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 4a44964..395a510 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -1347,7 +1347,7 @@ CCziWriter::SbBlkCoordinateCheckResult CCziWriter::CheckCoordinate(const libCZI:
                     return SbBlkCoordinateCheckResult::InsufficientCoordinate;
                 }
 
-                if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
+                if (!(startIndex <= coord && (static_cast<std::int64_t>(startIndex) + sizeIndex) > coord))
                 {
                     return SbBlkCoordinateCheckResult::OutOfBounds;
                 }
-- 
2.43.0


From 9198105c184a6cc17c4795a50ee58c6b52345c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:59 +0000
Subject: [PATCH 098/102] fix: bounds in the statistics are right for
 coordinates at the upper limit of the number range

---
 Src/libCZI/CziSubBlockDirectory.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 9e594cf..a6cd478 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -70,9 +70,9 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                     start = value;
                     changed = true;
                 }
-                else if (value >= start + size)
+                else if (value >= static_cast<std::int64_t>(start) + size)
                 {
-                    size = 1 + value - start;
+                    size = 1 + (value - start);
                     changed = true;
                 }
 
@@ -202,14 +202,16 @@ const libCZI::PyramidStatistics& CSbBlkStatisticsUpdater::GetPyramidStatistics()
             rect.h += diff;
         }
 
-        if (rect.x + rect.w < entry.x + entry.width)
+        const std::int64_t entryRight = static_cast<std::int64_t>(entry.x) + entry.width;
+        const std::int64_t entryBottom = static_cast<std::int64_t>(entry.y) + entry.height;
+        if (static_cast<std::int64_t>(rect.x) + rect.w < entryRight)
         {
-            rect.w = (entry.x + entry.width) - rect.x;
+            rect.w = static_cast<int>(entryRight - rect.x);
         }
 
-        if (rect.y + rect.h < entry.y + entry.height)
+        if (static_cast<std::int64_t>(rect.y) + rect.h < entryBottom)
         {
-            rect.h = (entry.y + entry.height) - rect.y;
+            rect.h = static_cast<int>(entryBottom - rect.y);
         }
     }
     else
-- 
2.43.0


From 5d4623ef1ec4f50b1665111e8f340565f0d57705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:12 +0000
Subject: [PATCH 099/102] fix: bitmaps of decoded sub-blocks are allocated with
 the site object, as documented for ISite::CreateBitmap

---
 Src/libCZI/CreateBitmap.cpp |  4 ++--
 Src/libCZI/decoder_zstd.cpp | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 1870546..2ef2d90 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -41,7 +41,7 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // ok, we have a discrepancy between the size of the bitmap and the size described in the subblock, so let's crop or pad the bitmap
 
             // create a bitmap of the size described in the subblock
-            auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
+            auto adjusted_bitmap = GetSite()->CreateBitmap(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
             const ScopedBitmapLockerSP adjusted_bitmap_lock{ adjusted_bitmap };
             const ScopedBitmapLockerSP decoded_bitmap_lock{ decoded_bitmap };
@@ -139,7 +139,7 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
         }
 
         // ok - according to the "resolution protocol" the bitmap is to be filled with zeroes
-        auto bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
+        auto bitmap = GetSite()->CreateBitmap(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
         auto lock = bitmap->Lock();
         size_t remaining_size = size;
         for (uint32_t y = 0; y < sub_block_info.physicalSize.h; ++y)
diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 8d388cc..f6e906f 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -140,7 +140,7 @@ namespace
             throw runtime_error(ss.str());
         }
 
-        auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
+        auto bitmap = GetSite()->CreateBitmap(pixel_type, width, height, stride);
         auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
 
         // Decompress the data into the bitmap       
@@ -183,7 +183,7 @@ namespace
 
         const size_t decompressed_size = DecompressAndThrowIfError(ptr_data, size, temporary_buffer.get(), expected_size, zstd_frame_content_size);
 
-        auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
+        auto bitmap = GetSite()->CreateBitmap(pixel_type, width, height);
         const auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
 
         // Note: "width * bytes_per_pel / 2" gives the "number of 16-bit pels" in a row, and we divide by 2 because that's
@@ -213,7 +213,7 @@ namespace
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
-        auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
+        auto bitmap = GetSite()->CreateBitmap(pixel_type, width, height, stride);
         if (zstd_frame_content_size == expected_size)
         {
             // sizes match, so we can decode normally
@@ -289,7 +289,7 @@ namespace
 
             DecompressAndThrowIfError(ptr_data, size, temporary_buffer.get(), zstd_frame_content_size, zstd_frame_content_size);
 
-            auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
+            auto bitmap = GetSite()->CreateBitmap(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
             LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
@@ -304,7 +304,7 @@ namespace
 
             const size_t decompressed_size = DecompressAndThrowIfError(ptr_data, size, temporary_buffer.get(), zstd_frame_content_size, zstd_frame_content_size);
 
-            auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
+            auto bitmap = GetSite()->CreateBitmap(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
 
             // the number of 16-bit words for which we have data (an excess byte is discarded)
@@ -338,7 +338,7 @@ namespace
             // now we can release the first temporary buffer
             temporary_buffer.reset();
 
-            auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
+            auto bitmap = GetSite()->CreateBitmap(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
             memcpy(bitmap_lock_info.ptrDataRoi, temporary_buffer_for_packed.get(), expectedSize);
             return bitmap;
-- 
2.43.0


From a5e4afd40bcc57df7ae588e5e7d654d11f73454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:39 +0000
Subject: [PATCH 100/102] fix: TransformPoint reports an error if no document
 is open, as all other methods do

---
 Src/libCZI/CZIReader.cpp       | 1 +
 Src/libCZI/CziReaderWriter.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index c8f154d..70a35b8 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -120,6 +120,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCZIReader::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index d2d316d..be13838 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -734,6 +734,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCziReaderWriter::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
-- 
2.43.0


From 184abe56ef21693d90fb2b9db6e817a89792aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:17 +0000
Subject: [PATCH 101/102] fix: the http stream sends the access token given
 with kCurlHttp_Xoauth2Bearer

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index c45fef7..408b920 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -173,6 +173,10 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
     {
         return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_XOAUTH2_BEARER, property->second.GetAsStringOrThrow().c_str());
         ThrowIfCurlSetOptError(return_code, "CURLOPT_XOAUTH2_BEARER");
+
+        // the token is only sent if this method of authentication is selected (c.f. https://curl.se/libcurl/c/CURLOPT_XOAUTH2_BEARER.html)
+        return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_HTTPAUTH, static_cast<long>(CURLAUTH_BEARER));
+        ThrowIfCurlSetOptError(return_code, "CURLOPT_HTTPAUTH");
     }
 
     property = property_bag.find(StreamsFactory::StreamProperties::kCurlHttp_Cookie);
-- 
2.43.0


From 7b88956ec3eca16db54b8e9a9e5b892008f5fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:09 +0000
Subject: [PATCH 102/102] fix: refuse document metadata whose size cannot be
 stored

The sizes of the XML and of the attachment of the metadata-segment are 32-bit integers in the file; a larger
size was truncated silently, so that the metadata found in the document was not what was written.
---
 Src/libCZI/CziWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 395a510..300d82a 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -878,6 +878,17 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     {
         throw std::invalid_argument("'ptrAttachment' must be non-null");
     }
+
+    // the sizes are stored as 32-bit integers
+    if (metadataInfo.szMetadataSize > static_cast<size_t>((numeric_limits<std::int32_t>::max)()))
+    {
+        throw std::invalid_argument("szMetadataSize must be <= numeric_limits<int32_t>::max()");
+    }
+
+    if (metadataInfo.attachmentSize > static_cast<size_t>((numeric_limits<std::int32_t>::max)()))
+    {
+        throw std::invalid_argument("attachmentSize must be <= numeric_limits<int32_t>::max()");
+    }
 }
 
 // calculate the "allocated" size from the "used size" (taking into account some alignment restrictions).
-- 
2.43.0

