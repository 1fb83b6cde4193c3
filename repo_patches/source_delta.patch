From 5b37f5c7754f253a94d9ddaf44471fdae6abfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:26 +0000
Subject: [PATCH 01/13] fix: BitVector::subset allocates the storage its dense
 file format reads back

A subset whose size is a multiple of eight had one byte less than readBits
expects for that size, so writing it densely and reading it back failed.
---
 src/core/util/BitVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/util/BitVector.cpp b/src/core/util/BitVector.cpp
index dbd5997..ae07b82 100644
--- a/src/core/util/BitVector.cpp
+++ b/src/core/util/BitVector.cpp
@@ -224,14 +224,14 @@ BitVectorPtr BitVector::subset(int32_t start, int32_t end) {
     if (end == start) {
         return newLucene<BitVector>(0);
     }
-    ByteArray bits(ByteArray::newInstance(MiscUtils::unsignedShift(end - start - 1, 3) + 1));
+    ByteArray bits(ByteArray::newInstance(((end - start) >> 3) + 1));
     int32_t s = MiscUtils::unsignedShift(start, 3);
     for (int32_t i = 0; i < bits.size(); ++i) {
-        int32_t cur = 0xff & this->bits[i + s];
+        int32_t cur = i + s >= this->bits.size() ? 0 : 0xff & this->bits[i + s];
         int32_t next = i + s + 1 >= this->bits.size() ? 0 : 0xff & this->bits[i + s + 1];
         bits[i] = (uint8_t)(MiscUtils::unsignedShift(cur, (start & 7)) | ((next << (8 - (start & 7)))));
     }
-    int32_t bitsToClear = (bits.size() * 8 - (end - start)) % 8;
+    int32_t bitsToClear = bits.size() * 8 - (end - start);
     bits[bits.size() - 1] &= ~(0xff << (8 - bitsToClear));
     return newLucene<BitVector>(bits, end - start);
 }
-- 
2.43.0


From 3d718177f40530cdd9a59280408e2502e8eafad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 02/13] fix: BufferedIndexInput::refill compares positions in
 64 bits, so reading far past the end fails

---
 src/core/store/BufferedIndexInput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/store/BufferedIndexInput.cpp b/src/core/store/BufferedIndexInput.cpp
index 52599ef..92b98ea 100644
--- a/src/core/store/BufferedIndexInput.cpp
+++ b/src/core/store/BufferedIndexInput.cpp
@@ -146,10 +146,10 @@ void BufferedIndexInput::refill() {
     if (end > length()) { // don't read past EOF
         end = length();
     }
-    int32_t newLength = (int32_t)(end - start);
-    if (newLength <= 0) {
+    if (end <= start) {
         boost::throw_exception(IOException(L"Read past EOF"));
     }
+    int32_t newLength = (int32_t)(end - start);
 
     if (!buffer) {
         newBuffer(ByteArray::newInstance(bufferSize)); // allocate buffer lazily
-- 
2.43.0


From 669d31e15cf1943329242848694f345340996573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 03/13] fix: MMapIndexInput fails on reads past the end instead
 of reading outside the mapping

---
 src/core/store/MMapDirectory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 46156e3..12131ab 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -48,6 +48,9 @@ MMapIndexInput::~MMapIndexInput() {
 }
 
 uint8_t MMapIndexInput::readByte() {
+    if (bufferPosition < 0 || bufferPosition >= _length) {
+        boost::throw_exception(IOException(L"Read past EOF"));
+    }
     try {
         return file.data()[bufferPosition++];
     } catch (...) {
@@ -57,6 +60,9 @@ uint8_t MMapIndexInput::readByte() {
 }
 
 void MMapIndexInput::readBytes(uint8_t* b, int32_t offset, int32_t length) {
+    if (length > 0 && (bufferPosition < 0 || length > _length - bufferPosition)) {
+        boost::throw_exception(IOException(L"Read past EOF"));
+    }
     try {
         MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
         bufferPosition += length;
-- 
2.43.0


From 109f64beb41f6afed681d0bdc1dc5b849ab3e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:34 +0000
Subject: [PATCH 04/13] fix: MMapDirectory opens empty files

---
 src/core/include/_MMapDirectory.h |  1 +
 src/core/store/MMapDirectory.cpp  | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/include/_MMapDirectory.h b/src/core/include/_MMapDirectory.h
index 3438f66..cb491f7 100644
--- a/src/core/include/_MMapDirectory.h
+++ b/src/core/include/_MMapDirectory.h
@@ -22,6 +22,7 @@ public:
 protected:
     int32_t _length;
     bool isClone;
+    bool isOpen;
     boost::iostreams::mapped_file_source file;
     int32_t bufferPosition; // next byte to read
 
diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 12131ab..74a4a41 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -34,7 +34,8 @@ IndexOutputPtr MMapDirectory::createOutput(const String& name) {
 MMapIndexInput::MMapIndexInput(const String& path) {
     _length = path.empty() ? 0 : (int32_t)FileUtils::fileLength(path);
     bufferPosition = 0;
-    if (!path.empty()) {
+    // an empty file cannot be mapped, and needs no mapping
+    if (!path.empty() && (_length != 0 || !FileUtils::fileExists(path))) {
         try {
             file.open(boost::filesystem::path(path), _length);
         } catch (...) {
@@ -42,6 +43,7 @@ MMapIndexInput::MMapIndexInput(const String& path) {
         }
     }
     isClone = false;
+    isOpen = !path.empty();
 }
 
 MMapIndexInput::~MMapIndexInput() {
@@ -84,16 +86,17 @@ int64_t MMapIndexInput::length() {
 }
 
 void MMapIndexInput::close() {
-    if (isClone || !file.is_open()) {
+    if (isClone || !isOpen) {
         return;
     }
     _length = 0;
     bufferPosition = 0;
+    isOpen = false;
     file.close();
 }
 
 LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
-    if (!file.is_open()) {
+    if (!isOpen) {
         boost::throw_exception(AlreadyClosedException(L"MMapIndexInput already closed"));
     }
     LuceneObjectPtr clone = IndexInput::clone(other ? other : newLucene<MMapIndexInput>());
@@ -102,6 +105,7 @@ LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
     cloneIndexInput->file = file;
     cloneIndexInput->bufferPosition = bufferPosition;
     cloneIndexInput->isClone = true;
+    cloneIndexInput->isOpen = true;
     return cloneIndexInput;
 }
 
-- 
2.43.0


From 01fdb4ff392af83d95d29aa30a8ae2325058f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 05/13] fix: RAMInputStream fails at the end of the file
 instead of returning stale or trailing buffer bytes

---
 src/core/store/RAMInputStream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..359e45d 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -75,19 +75,22 @@ void RAMInputStream::readBytes(uint8_t* b, int32_t offset, int32_t length) {
 }
 
 void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
-    if (currentBufferIndex >= file->numBuffers()) {
+    int64_t start = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+    if (start >= _length || currentBufferIndex >= file->numBuffers()) {
         // end of file reached, no more buffers left
         if (enforceEOF) {
+            --currentBufferIndex;
             boost::throw_exception(IOException(L"Read past EOF"));
         } else {
             // force eof if a read takes place at this position
-            --currentBufferIndex;
-            bufferPosition = BUFFER_SIZE;
+            bufferPosition = 0;
+            bufferStart = start;
+            bufferLength = 0;
         }
     } else {
         currentBuffer = file->getBuffer(currentBufferIndex);
         bufferPosition = 0;
-        bufferStart = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+        bufferStart = start;
         int64_t buflen = _length - bufferStart;
         bufferLength = buflen > BUFFER_SIZE ? BUFFER_SIZE : (int32_t)buflen;
     }
@@ -98,7 +101,7 @@ int64_t RAMInputStream::getFilePointer() {
 }
 
 void RAMInputStream::seek(int64_t pos) {
-    if (!currentBuffer || (int32_t)pos < bufferStart || (int32_t)pos >= bufferStart + BUFFER_SIZE) {
+    if (currentBufferIndex < 0 || pos < bufferStart || pos >= bufferStart + BUFFER_SIZE) {
         currentBufferIndex = (int32_t)(pos / BUFFER_SIZE);
         switchCurrentBuffer(false);
     }
-- 
2.43.0


From ae38d79f06ddf55e9decc722c657f35085d00071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 06/13] fix: SmallDouble encodes every positive value to a
 nonzero code, keeping the order of codes

---
 src/core/util/SmallDouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/SmallDouble.cpp b/src/core/util/SmallDouble.cpp
index 032611b..81d1dc6 100644
--- a/src/core/util/SmallDouble.cpp
+++ b/src/core/util/SmallDouble.cpp
@@ -29,7 +29,7 @@ uint8_t SmallDouble::doubleToByte(double f) {
         exponent = 31;
         mantissa = 7;
     }
-    if (exponent < 0) { // underflow: use min value
+    if (exponent < 0 || (exponent == 0 && mantissa == 0)) { // underflow: use min value
         exponent = 0;
         mantissa = 1;
     }
-- 
2.43.0


From 322a2174e0ffbdfbb32848d280a807f3d482cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:04 +0000
Subject: [PATCH 07/13] fix: SortedVIntList rejects a negative number after a
 large one instead of wrapping around

---
 src/core/util/SortedVIntList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/SortedVIntList.cpp b/src/core/util/SortedVIntList.cpp
index c5599ee..a69b225 100644
--- a/src/core/util/SortedVIntList.cpp
+++ b/src/core/util/SortedVIntList.cpp
@@ -82,10 +82,10 @@ void SortedVIntList::initBytes() {
 }
 
 void SortedVIntList::addInt(int32_t nextInt) {
-    int32_t diff = nextInt - lastInt;
-    if (diff < 0) {
+    if (nextInt < lastInt) {
         boost::throw_exception(IllegalArgumentException(L"Input not sorted or first element negative."));
     }
+    int32_t diff = nextInt - lastInt;
 
     if (!bytes || (lastBytePos + MAX_BYTES_PER_INT) > bytes.size()) {
         // biggest possible int does not fit
-- 
2.43.0


From a0b60a1baee2ab2fc5568cc5076f84ad839e886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:39 +0000
Subject: [PATCH 08/13] fix: a doc store turned into a compound file marks only
 segments of the writer's own directory

---
 src/core/index/IndexWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..8471e2d 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -841,7 +841,8 @@ bool IndexWriter::flushDocStores() {
 
         for (int32_t i = 0; i < numSegments; ++i) {
             SegmentInfoPtr si(segmentInfos->info(i));
-            if (si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
+            // segments of other directories (addIndexesNoOptimize) can have the same doc store name
+            if (si->dir == directory && si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
                 si->setDocStoreIsCompoundFile(true);
             }
         }
@@ -2734,7 +2735,7 @@ void IndexWriter::setMergeDocStoreIsCompoundFile(const OneMergePtr& merge) {
         for (int32_t i = 0; i < size; ++i) {
             SegmentInfoPtr info(segmentInfos->info(i));
             String docStoreSegment(info->getDocStoreSegment());
-            if (!docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
+            if (info->dir == directory && !docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
                 merge->info->setDocStoreIsCompoundFile(true);
                 break;
             }
-- 
2.43.0


From 24e7ebfbb084c7330425b94d727eda7a403f8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:02 +0000
Subject: [PATCH 09/13] fix: encode and decode U+FFFE, U+FFFF and U+1FFFF

The end-of-text marker of the UTF-8 encoder and decoder was the code point
U+1FFFF, so text was cut at that character, and U+FFFE and U+FFFF were taken
for invalid, so text containing them was lost as a whole.
---
 src/core/util/UTF8Stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/UTF8Stream.cpp b/src/core/util/UTF8Stream.cpp
index 3762469..0fe4299 100644
--- a/src/core/util/UTF8Stream.cpp
+++ b/src/core/util/UTF8Stream.cpp
@@ -25,7 +25,7 @@ const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0xfffd;
 const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0xffff;
 #else
 const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0x0001fffd;
-const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0x0001ffff;
+const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0x0011ffff; // beyond the last code point
 #endif
 
 UTF8Base::~UTF8Base() {
@@ -56,7 +56,7 @@ inline bool UTF8Base::isTrailSurrogate(uint32_t cp) {
 }
 
 inline bool UTF8Base::isValidCodePoint(uint32_t cp) {
-    return (cp <= CODE_POINT_MAX && !isSurrogate(cp) && cp != 0xfffe && cp != 0xffff);
+    return (cp <= CODE_POINT_MAX && !isSurrogate(cp));
 }
 
 inline bool UTF8Base::isOverlongSequence(uint32_t cp, int32_t length) {
-- 
2.43.0


From 157ba40fea6f19ea0b588befa0c261f57cec4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:40 +0000
Subject: [PATCH 10/13] fix: TermInfosReader::getPosition dereferenced a
 missing current term

Before the first entry of the first index block, and after the last entry, the
enumeration has no current term; getPosition compared with it all the same and
crashed for any term of the first block and any term after the last.
---
 src/core/index/TermInfosReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/TermInfosReader.cpp b/src/core/index/TermInfosReader.cpp
index 39e3db1..ec81acc 100644
--- a/src/core/index/TermInfosReader.cpp
+++ b/src/core/index/TermInfosReader.cpp
@@ -201,10 +201,11 @@ int64_t TermInfosReader::getPosition(const TermPtr& term) {
     SegmentTermEnumPtr enumerator(getThreadResources()->termEnum);
     seekEnum(enumerator, indexOffset);
 
-    while (term->compareTo(enumerator->term()) > 0 && enumerator->next()) {
+    // there is no current term before the first entry and after the last one
+    while ((!enumerator->term() || term->compareTo(enumerator->term()) > 0) && enumerator->next()) {
     }
 
-    return term->compareTo(enumerator->term()) == 0 ? enumerator->position : -1;
+    return enumerator->term() && term->compareTo(enumerator->term()) == 0 ? enumerator->position : -1;
 }
 
 SegmentTermEnumPtr TermInfosReader::terms() {
-- 
2.43.0


From cb1869bb959df32d3f5f03d8c1f23d3575d9df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:18 +0000
Subject: [PATCH 11/13] fix: radix text forms of 64-bit and negative numbers

---
 src/core/util/StringUtils.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/util/StringUtils.cpp b/src/core/util/StringUtils.cpp
index 7647410..f4f932d 100644
--- a/src/core/util/StringUtils.cpp
+++ b/src/core/util/StringUtils.cpp
@@ -151,8 +151,10 @@ int64_t StringUtils::toLong(const String& value) {
 
 int64_t StringUtils::toLong(const String& value, int32_t base) {
     int64_t longValue = 0;
-    for (String::const_iterator ptr = value.begin(); ptr != value.end(); ++ptr) {
-        longValue = UnicodeUtil::isDigit(*ptr) ? (base * longValue) + (*ptr - L'0') : (base * longValue) + (*ptr - L'a' + 10);
+    bool negative = (!value.empty() && value[0] == L'-');
+    for (String::const_iterator ptr = value.begin() + (negative ? 1 : 0); ptr != value.end(); ++ptr) {
+        int64_t digit = UnicodeUtil::isDigit(*ptr) ? (*ptr - L'0') : (*ptr - L'a' + 10);
+        longValue = (base * longValue) + (negative ? -digit : digit);
     }
     return longValue;
 }
@@ -181,16 +183,21 @@ int32_t StringUtils::hashCode(const String& value) {
 String StringUtils::toString(int64_t value, int32_t base) {
     static const wchar_t* digits = L"0123456789abcdefghijklmnopqrstuvwxyz";
 
-    int32_t bufferSize = (sizeof(int32_t) << 3) + 1;
+    int32_t bufferSize = (sizeof(int64_t) << 3) + 2; // 64 binary digits, sign and terminator
     CharArray baseOutput(CharArray::newInstance(bufferSize));
 
     wchar_t* ptr = baseOutput.get() + bufferSize - 1;
     *ptr = L'\0';
 
+    uint64_t magnitude = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
     do {
-        *--ptr = digits[value % base];
-        value /= base;
-    } while (ptr > baseOutput.get() && value > 0);
+        *--ptr = digits[magnitude % base];
+        magnitude /= base;
+    } while (magnitude > 0);
+
+    if (value < 0) {
+        *--ptr = L'-';
+    }
 
     return String(ptr, (baseOutput.get() + bufferSize - 1) - ptr);
 }
-- 
2.43.0


From 3febe62e84fb1c1ff3ff23d3c466ac3ee0a9fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:27 +0000
Subject: [PATCH 12/13] fix: DateField refuses times that have no text form
 instead of truncating them

---
 src/core/document/DateField.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/document/DateField.cpp b/src/core/document/DateField.cpp
index 6cbc92a..e058d95 100644
--- a/src/core/document/DateField.cpp
+++ b/src/core/document/DateField.cpp
@@ -50,10 +50,14 @@ String DateField::timeToString(int64_t time) {
         boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too early, must be >= 0"));
     }
 
-    String timeString(DATE_LEN(), L'0');
-    timeString += StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX);
+    String timeString(StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX));
 
-    return timeString.substr(timeString.length() - DATE_LEN(), DATE_LEN());
+    if ((int32_t)timeString.length() > DATE_LEN()) {
+        boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too late, length of string representation must be <= " + StringUtils::toString(DATE_LEN())));
+    }
+
+    // pad with leading zeros
+    return String(DATE_LEN() - timeString.length(), L'0') + timeString;
 }
 
 int64_t DateField::stringToTime(const String& s) {
-- 
2.43.0


From b631e70a28a5c401598e1fc1193bf653c803b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 13/13] fix: NumberTools::longToString gave negative numbers
 two prefixes

---
 src/core/document/NumberTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/document/NumberTools.cpp b/src/core/document/NumberTools.cpp
index 35d990f..db413e3 100644
--- a/src/core/document/NumberTools.cpp
+++ b/src/core/document/NumberTools.cpp
@@ -55,8 +55,9 @@ String NumberTools::longToString(int64_t l) {
     if (l < 0) {
         buf += NEGATIVE_PREFIX;
         l = std::numeric_limits<int64_t>::max() + l + 1;
+    } else {
+        buf += POSITIVE_PREFIX;
     }
-    buf += POSITIVE_PREFIX;
 
     String num(StringUtils::toString(l, RADIX));
 
-- 
2.43.0

