From 5473102fdae22555642f78a5d724f17f3b1fee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 01/25] fix: StringStream honours min > max as no limit and
 skips counts beyond 32 bits

---
 include/strigi/stringstream.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..0f0e6e6 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -110,8 +110,8 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         StreamBase<T>::m_status = Eof;
         return -1;
     }
-    if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    // there is no limit on the amount of data if max is smaller than min
+    int32_t nread = (max > left || max < min || max < 1) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
@@ -124,6 +124,9 @@ int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
     const T* start;
+    // never ask for more than there is: ntoskip may not fit in an int32_t
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    if (ntoskip > left) ntoskip = (left > 0) ?left :1;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
 template <class T>
-- 
2.43.0


From 6af845153bc17a80fb7e1356fa549fb7833e84f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 02/25] fix: BZ2InputStream does not deallocate an
 uninitialised decompressor

---
 lib/bz2inputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..8fd4038 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -51,6 +51,8 @@ BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         :p(bis), input(i) {
     // initialize values that signal state
     this->input = input;
+    // dealloc() must be safe when there is nothing to decompress
+    std::memset(&bzstream, 0, sizeof(bzstream));
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
-- 
2.43.0


From a6dd76e13d2b0c25d21ffb45b9c27936b5c12f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 03/25] fix: report the end of empty files and keep errors in
 the memory mapped file stream

---
 lib/mmapfileinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..468fb20 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -71,6 +71,10 @@ int32_t
 MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (m_status == Error) return -2;
     if (m_status == Eof) return -1;
+    if (m_position == m_size) {
+        m_status = Eof;
+        return -1;
+    }
     int32_t n = max(_min, _max);
     if (n >= m_size - m_position) {
         m_status = Eof;
@@ -82,6 +86,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From ca2dfba4ea48fc9908ccd2fab7bde85570ba1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 04/25] fix: SkippingFileInputStream reports the end of the
 file and read errors

---
 lib/skippingfileinputstream.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..67b177f 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -90,6 +90,8 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
          m_status = Error;
          return -2; // error
     }
+    if (m_status == Error) return -2;
+    if (m_status == Eof) return -1;
     // take a decent buffersize that can hold the request
     int32_t n = max(_min, _max);
     if (_max <= 0) {
@@ -110,12 +112,14 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (nr != n) {
         if (ferror(file)) {
             m_status = Error;
-        } else {
-            m_status = Eof;
-            if (m_size == -1) {
-                m_size = m_position;
-            }
+            m_error = "Could not read from file '" + filepath + "'.";
+            return -2;
+        }
+        m_status = Eof;
+        if (m_size == -1) {
+            m_size = m_position;
         }
+        if (nr == 0) return -1;
     }
     start = buffer;
     return nr;
-- 
2.43.0


From c6e10381750ae2dae8115cb976f63aa11ad45269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 05/25] fix: SubInputStream stays inside its window on reset
 and skip and knows its size at the end

---
 lib/subinputstream.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..87d2063 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -33,6 +33,7 @@ SubInputStream::SubInputStream(InputStream *i, int64_t length)
 }
 int32_t
 SubInputStream::read(const char*& start, int32_t min, int32_t max) {
+    if (m_status == Error) return -2;
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
         if (left == 0) {
@@ -56,8 +57,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -80,21 +81,29 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
-    m_position = m_input->reset(newpos + m_offset);
-    if (m_position < m_offset) {
-        cerr << "########### m_position " << m_position << " newpos " << newpos
+    // never leave the part of the input that this stream covers
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
+    const int64_t pos = m_input->reset(newpos + m_offset) - m_offset;
+    if (pos < 0 || (m_size != -1 && pos > m_size)) {
+        cerr << "########### m_position " << pos << " newpos " << newpos
             << endl;
         m_status = Error;
         m_error = m_input->error();
-    } else {
-        m_position -= m_offset;
-        m_status = m_input->status();
+        return -2;
+    }
+    m_position = pos;
+    m_status = m_input->status();
+    if (m_size == -1 && m_status == Eof) {
+        m_size = m_position;
+    } else if (m_status != Error) {
+        m_status = (m_position == m_size) ?Eof :Ok;
     }
     return m_position;
 }
 int64_t
 SubInputStream::skip(int64_t ntoskip) {
 //    fprintf(stderr, "subskip pos: %li ntoskip: %li m_offset: %li m_size: %li\n", m_position, ntoskip, m_offset, m_size);
+    if (m_status == Error) return -2;
     if (m_size == m_position) {
         m_status = Eof;
         return -1;
@@ -112,10 +121,14 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) m_position += skipped;
+        if (m_size == -1 && skipped < ntoskip) {
+            // the end of the input is the end of this stream
+            m_size = m_position;
+        }
         if (m_position == m_size) {
             m_status = Eof;
-        } else if (skipped <= 0) {
+        } else if (skipped < ntoskip) {
             m_status = Error;
             m_error = "Premature end of stream\n";
             skipped = -2;
-- 
2.43.0


From c2051f930e4c34d50b3edba4f00983161ba85f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 06/25] fix: StringTerminatedSubStream never goes past its
 terminator, honours limits and knows its size

---
 lib/stringterminatedsubstream.cpp | 35 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..b3904c6 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -57,17 +57,20 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (m_status == Eof) return -1;
     if (m_status == Error) return -2;
     int32_t nread;
+    if (min < 1) min = 1;
 
     // check if we already read enough
     const int64_t pos = p->m_input->position();
     nread = (int32_t)(p->furthest - pos);
     if (min <= nread) {
-        if (max <= 0 || max > nread) {
+        if (max < min || max > nread) {
             max = nread;
         }
         nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
-        if (nread > 0) {
+        if (nread < -1) {
+            m_status = Error;
+            m_error = p->m_input->error();
+        } else if (nread > 0) {
             m_position += nread;
             if (m_position == m_size) {
                 m_status = Eof;
@@ -80,18 +83,14 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     int32_t tl = p->m_searcher.queryLength();
 
     // increase min and max to accommodate for the length of the terminator
-    int32_t tlmin = min;
+    int32_t tlmin = min + tl;
     int32_t tlmax = max;
-    if (tlmin == 0) {
-        tlmin = 1 + tl;
-    } else {
-        tlmin += tl;
-    }
     if (tlmax > 0 && tlmax < tlmin) tlmax = tlmin;
 
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
@@ -116,7 +115,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
         p->furthest = pos + nread;
         // we rewind, but the pointer 'start' will stay valid nontheless
         p->m_input->reset(pos + nread);
-    } else if (max != 0 && nread > max) {
+    } else if (max >= min && nread > max) {
         // we are near the end of the stream but cannot pass all data
         // at once because the amount read is larger than the amount to pass
         p->furthest = pos + nread;
@@ -130,15 +129,23 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
+        // the terminator directly follows the data that was already read
+        if (nread == 0) nread = -1;
     }
     return nread;
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
-    m_position = p->m_input->reset(newpos + p->m_offset);
-    if (m_position >= p->m_offset) {
-        m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
+    // stay in the part that is known to come before the terminator
+    int64_t limit = m_size;
+    if (limit == -1) {
+        limit = p->furthest - p->m_offset;
+        if (limit < m_position) limit = m_position;
+    }
+    if (newpos > limit) newpos = limit;
+    m_position = p->m_input->reset(newpos + p->m_offset) - p->m_offset;
+    if (m_position >= 0 && m_position <= limit) {
+        m_status = (m_position == m_size) ?Eof :Ok;
     } else {
         // the stream is not positioned at a valid m_position
         m_status = Error;
-- 
2.43.0


From 0048266cac44e05337b4d894011d7f2f353b9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 07/25] fix: DataEventInputStream keeps the data pointer valid
 on reset and reports failures

---
 lib/dataeventinputstream.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..a2dd8d2 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -36,6 +36,14 @@ DataEventInputStream::DataEventInputStream(InputStream *i,
 int32_t
 DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
 //    fprintf(stderr, "input->position(): %lli\n", input->position());
+    if (m_status == Error) return -2;
+    if (m_status == Eof) {
+        if (!finished) {
+            finish();
+            finished = true;
+        }
+        return -1;
+    }
     int32_t nread = input->read(start, min, max);
 //    fprintf(stderr, "%p pos: %lli min %i max %i nread %i\n", this, m_position, min, max, nread);
     if (nread < -1) {
@@ -101,11 +109,11 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
+    if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
-        return m_position;
+        return (m_status == Error) ?-2 :m_position;
     }
 //    fprintf(stderr, "DataEventInputStream::reset\n");
     int64_t newpos = input->reset(np);
@@ -117,6 +125,11 @@ DataEventInputStream::reset(int64_t np) {
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
+    if (newpos >= 0 && newpos < np && m_status == Ok) {
+        // the input cannot go forward by itself
+        skip(np - newpos);
+        return (m_status == Error) ?-2 :m_position;
+    }
     return newpos;
 }
 void
-- 
2.43.0


From d77aaff2c00c0bf25a92ddef32c730486e09078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 08/25] fix: EncodingInputStream only reports the bytes it
 wrote and can fill small buffers

---
 lib/encodinginputstream.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..cf544f3 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,10 +40,14 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // encoded bytes that did not fit in the space that was available
+    char pending[64];
+    int32_t pendingPos, pendingEnd;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            pendingPos(0), pendingEnd(0) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
@@ -109,7 +113,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
             break;
         default:
             char tmp[10];
@@ -132,6 +136,14 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
 }
 int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    // first write the bytes that are left from the previous call
+    if (p->pendingPos < p->pendingEnd) {
+        int32_t n = p->pendingEnd - p->pendingPos;
+        if (n > space) n = space;
+        std::memcpy(start, p->pending + p->pendingPos, n);
+        p->pendingPos += n;
+        return n;
+    }
     // fill up charbuf
     if (p->input && p->charbuf.readPos == p->charbuf.start) {
         const char *begin;
@@ -158,6 +170,18 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         p->charbuf.avail = numRead + p->charbuf.avail;
     }
     // decode
+    if (space < (int32_t)sizeof(p->pending)) {
+        // a single character might need more space than there is
+        int32_t n = p->decode(p->pending, sizeof(p->pending));
+        if (n <= space) {
+            if (n > 0) std::memcpy(start, p->pending, n);
+            return n;
+        }
+        std::memcpy(start, p->pending, space);
+        p->pendingPos = space;
+        p->pendingEnd = n;
+        return space;
+    }
     int32_t n = p->decode(start, space);
     //printf("decoded %i\n", n);
     return n;
-- 
2.43.0


From 4915191deff08957778c2088ff55fcb9f1c0fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 09/25] fix: KmpSearcher no longer misses matches and accepts
 an empty query

---
 include/strigi/kmpsearcher.h | 2 +-
 lib/kmpsearcher.cpp          | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/strigi/kmpsearcher.h b/include/strigi/kmpsearcher.h
index 28d049b..36386dd 100644
--- a/include/strigi/kmpsearcher.h
+++ b/include/strigi/kmpsearcher.h
@@ -38,7 +38,7 @@ private:
     int32_t len;
     int32_t maxlen;
 public:
-    KmpSearcher() :table(0) { }
+    KmpSearcher() :table(0), len(0), maxlen(0) { }
     explicit KmpSearcher(const std::string& query);
     ~KmpSearcher() {
         if (table) {
diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..20a1984 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -109,7 +109,7 @@ KmpSearcher::setQuery(const string& query) {
         maxlen = len;
     }
 
-    preBmGs(p, len, table+256);
+    if (len > 0) preBmGs(p, len, table+256);
     preBmBc(p, len, table);
 }
 const char*
@@ -146,9 +146,6 @@ KmpSearcher::search(const char* haystack, int32_t haylen) const {
             if (shift == bmGs[i]) {
                 u = min(len - shift, v);
             } else {
-                if (turboShift < bcShift) {
-                    shift = max(shift, u + 1);
-                }
                 u = 0;
             }
         }
-- 
2.43.0


From ec5369d040c329b583ac12e22ac156abe258a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 10/25] fix: checkUtf8 rejects overlong forms and values above
 U+10FFFF

---
 lib/textutils.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index ae11316..19f7294 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -34,6 +34,7 @@ Strigi::checkUtf8(const char* p, int32_t length) {
     // check if the text is valid UTF-8
     char nb = 0;
     uint64_t val = 0;
+    uint64_t min = 0; // smaller values should have used fewer bytes
     while (p < end) {
         unsigned char c = *p;
         if (nb) {
@@ -43,7 +44,8 @@ Strigi::checkUtf8(const char* p, int32_t length) {
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
-                if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                if (val < min || val > 0x10FFFF
+                        || val == 0xFFFE || val == 0xFFFF // Noncharacters
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     return false;
@@ -52,12 +54,15 @@ Strigi::checkUtf8(const char* p, int32_t length) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             nb = 1;
             val = c & 0x1F;
+            min = 0x80;
         } else if ((0xF0 & c) == 0xE0) {
             nb = 2;
             val = c & 0x0F;
+            min = 0x800;
         } else if (c >= 0xF0 && c <= 0xF4) {
             nb = 3;
             val = c & 0x07;
+            min = 0x10000;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
             return false;
@@ -86,6 +91,7 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
     const char* end = p + length;
     const char* cs = p;
     uint64_t val = 0;
+    uint64_t min = 0; // smaller values should have used fewer bytes
     // check if the text is valid UTF-8
     nb = 0;
     while (p < end) {
@@ -99,7 +105,8 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
-                if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                if (val < min || val > 0x10FFFF
+                        || val == 0xFFFE || val == 0xFFFF // Noncharacters
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     // nb is 0 to signal an error
@@ -109,14 +116,17 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             cs = p;
             val = c & 0x1F;
+            min = 0x80;
             nb = 1;
         } else if ((0xF0 & c) == 0xE0) {
             cs = p;
             val = c & 0x0F;
+            min = 0x800;
             nb = 2;
         } else if (c >= 0xF0 && c <= 0xF4) {
             cs = p;
             val = c & 0x07;
+            min = 0x10000;
             nb = 3;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
-- 
2.43.0


From 2419e65587c90f675ddee652865119ba13eddd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 11/25] fix: 64 bit readers on unsigned char read all 64 bits

---
 include/strigi/textutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index d69d4d0..dc6bc91 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -107,7 +107,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const unsigned char
     return readLittleEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const unsigned char* c) {
-    return readLittleEndianInt16(reinterpret_cast<const char*>(c));
+    return readLittleEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const unsigned char* c) {
     return readLittleEndianUInt64(reinterpret_cast<const char*>(c));
@@ -125,7 +125,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const unsigned char* c
     return readBigEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const unsigned char* c) {
-    return readBigEndianInt16(reinterpret_cast<const char*>(c));
+    return readBigEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const unsigned char* c) {
     return readBigEndianUInt64(reinterpret_cast<const char*>(c));
-- 
2.43.0


From 14c199ef85e6a507bd28885ec162703f57704fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 12/25] fix: dos2unixtime keeps the hours from 16 to 23

---
 lib/dostime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..373e294 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -50,7 +50,7 @@ dos2unixtime (unsigned long dostime)
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
   ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
+  ltime.tm_hour = (int)(dostime >> 11) & 0x1f;
   ltime.tm_min = (int)(dostime >> 5) & 0x3f;
   ltime.tm_sec = (int)(dostime & 0x1f) << 1;
 
-- 
2.43.0


From aaeee0f3e746704e992b597a78ca9d5ae39d9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 13/25] fix: tar: end of archive at the end of the input, long
 names with their NUL, large sizes, unchecked header after a long name,
 recursion for './'

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 50 +++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..c702cf0 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -41,7 +41,10 @@ TarInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    parseHeader();
+    do {
+        parseHeader();
+        // the entry './' has no size here, it is not reported
+    } while (m_status == Ok && m_entryinfo.size < 0);
     if (m_status) return 0;
     if (m_entryinfo.size >= 0) {
         m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
@@ -53,10 +56,8 @@ TarInputStream::readHeader() {
     // read the first 512 characters
     const char *begin;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
-        m_status = Error;
+    if (nread != 512) {
+        m_status = (m_input->status() == Eof) ?Eof :Error;
     }
     return begin;
 }
@@ -144,11 +145,16 @@ TarInputStream::parseHeader() {
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
-        if (m_status) return;
+        if (m_status || !checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
         if (len == 2) { // skip entry './'
-            return parseHeader();
+            m_entryinfo.size = -1;
+            return;
         }
         m_entryinfo.filename.append(hb, 2, len-2);
     } else {
@@ -167,7 +173,7 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    if (len > 0 && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
@@ -180,11 +186,15 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    // a field is 12 bytes long and need not be terminated
+    char field[13];
+    std::memcpy(field, b+offset, 12);
+    field[12] = '\0';
+    unsigned long long val = 0;
+    int r = sscanf(field, "%llo", &val);
+    if (r != 1 || val > 077777777777ULL) {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
@@ -193,13 +203,20 @@ TarInputStream::readOctalField(const char *b, int32_t offset) {
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size > 1024*1024) {
+        m_status = Error;
+        m_error = "Error reading LongLink: name is too long.";
+        return;
+    }
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
+    if (toread == 0) return;
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
@@ -211,7 +228,10 @@ TarInputStream::readLongLink(const char *b) {
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    // the name ends at the first '\0'
+    int32_t len = 0;
+    while (len < nread && begin[len] != '\0') ++len;
+    m_entryinfo.filename.append(begin, len);
 
     int64_t skipped = m_input->skip(left);
     if (skipped != left) {
-- 
2.43.0


From 685eb2601d9accb9de32cc005ba8ede751631e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 14/25] fix: cpio, ar: endless recursion over tables, truncated
 header as clean end, sizes above 2 GiB, name over-read

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/arinputstream.cpp            | 28 +++++++++++++++++++++-------
 lib/cpioinputstream.cpp          | 25 ++++++++++++++++---------
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..1ea003d 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    int64_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..a552d1d 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -50,7 +50,10 @@ ArInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    readHeader();
+    do {
+        readHeader();
+        // the tables of names and of symbols are no entries: no size is set
+    } while (m_status == Ok && m_entryinfo.size < 0);
     if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
@@ -96,27 +99,38 @@ ArInputStream::readHeader() {
     char bc[61];
     std::memcpy(bc, b, 60);
     bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
+    m_entryinfo.size = atoll(bc+48);
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
         return;
     }
-    m_entryinfo.mtime = atoi(bc+16);
+    m_entryinfo.mtime = atoll(bc+16);
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-            nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
+            if (m_entryinfo.size > 1024*1024*256) {
+                m_error = "name table is too large";
+                m_status = Error;
+                return;
+            }
+            gnufilenames.clear();
+            nread = 0;
+            if (m_entryinfo.size > 0) {
+                nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
+            }
             if (nread != m_entryinfo.size) {
                 m_error = "premature end of stream";
                 m_status = Error;
                 return;
             }
-            gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
+            if (nread > 0) gnufilenames.assign(b, nread);
+            m_entryinfo.size = -1;
+            return;
         } else if (b[1] == ' ') {
             m_input->skip(m_entryinfo.size);
-            readHeader();
+            m_entryinfo.size = -1;
+            return;
         } else {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..a8f81ad 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -22,6 +22,7 @@
 #include <strigi/subinputstream.h>
 
 #include <list>
+#include <cctype>
 #include <cstring>
 
 using namespace std;
@@ -60,10 +61,8 @@ CpioInputStream::nextEntry() {
         }
     }
     readHeader();
-    m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
+    if (m_status == Ok) {
+        m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     }
     return m_entrystream;
 }
@@ -79,9 +78,10 @@ CpioInputStream::readHeader() {
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
         m_status = m_input->status();
-        if (m_status == Eof) {
+        if (m_status == Eof && nread <= 0) {
             return;
         }
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
         if (nread == -1) {
             m_error += m_input->error();
@@ -99,11 +99,13 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
-    int32_t filenamesize = readHexField(b+94);
-    if (m_status) {
+    int64_t namesize = readHexField(b+94);
+    if (m_status || namesize < 1 || namesize > 1024*1024) {
+        m_status = Error;
         m_error = "Error parsing entry field.";
         return;
     }
+    int32_t filenamesize = (int32_t)namesize;
     char namepadding = (char)((filenamesize+2) % 4);
     if (namepadding) namepadding = (char)(4 - namepadding);
     padding = (char)(m_entryinfo.size % 4);
@@ -120,6 +122,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
@@ -131,13 +134,17 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+int64_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    int64_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
         c = b[i];
+        if (!isxdigit((unsigned char)c)) {
+            m_status = Error;
+            return 0;
+        }
         if (c > 'F') {
             val += c - 87;
         } else if (c > '9') {
-- 
2.43.0


From f65861880b9659a0da55b26e4112e649f1e5df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 15/25] fix: zip, rpm: unknown compression methods taken for
 stored data, empty names, header sizes that overflow

---
 include/strigi/zipinputstream.h |  2 +-
 lib/rpminputstream.cpp          | 22 +++++++++++++++++-----
 lib/zipinputstream.cpp          |  6 ++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..e4fddb1 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    int64_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..5f7434d 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -32,6 +32,18 @@ using namespace Strigi;
 
 class RpmInputStream::RpmHeaderInfo {
 };
+namespace {
+/**
+ * Size of the index and the data of a header section or -1 if it cannot be
+ * right.
+ **/
+int32_t
+sectionSize(int32_t nindex, int32_t hsize) {
+    const int32_t max = 256*1024*1024;
+    if (nindex < 0 || hsize < 0 || nindex > max/16 || hsize > max) return -1;
+    return nindex*16+hsize;
+}
+}
 /**
  * RPM files as specified here:
  * http://www.freestandards.org/spec/refspecs/LSB_1.3.0/gLSB/gLSB/swinstall.html
@@ -68,11 +80,11 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
-    int32_t sz = nindex*16+hsize;
-    if (sz%8) {
+    int32_t sz = sectionSize(nindex, hsize);
+    if (sz > 0 && sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz < 0 || (sz > 0 && m_input->read(b, sz, sz) != sz)) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +96,8 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
-    int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    int32_t size = sectionSize(nindex, hsize);
+    if (size < 0 || (size > 0 && m_input->read(b, size, size) != size)) {
         m_error = "could not read header\n";
         return;
     }
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..7cd5c95 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -191,6 +191,11 @@ ZipInputStream::readHeader() {
         return;
     }
     compressionMethod = readLittleEndianUInt16(hb + 8);
+    if (compressionMethod != 0 && compressionMethod != 8) {
+        m_status = Error;
+        m_error = "Error: unsupported compression method.";
+        return;
+    }
     int32_t generalBitFlags = readLittleEndianUInt16(hb+6);
     if (generalBitFlags & 8) { // is bit 3 set?
         // ohoh, the file size and compressed file size are unknown at this
@@ -229,6 +234,7 @@ ZipInputStream::readHeader() {
 void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
+    if (len < 1) return;
     const char *begin;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
-- 
2.43.0


From a682a851b8eb256814a8047229a7eee42f699c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 16/25] fix: ole: double free of the current entry, unchecked
 block numbers, small streams dropped, errors reported as end

---
 lib/oleinputstream.cpp | 59 +++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..c7f9251 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -155,7 +155,7 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
 }
 bool
 OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+    if (offset < 0 || offset > size - 4) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
@@ -164,8 +164,9 @@ OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
     return true;
 }
 OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
-        :entrystream(new OleEntryStream(this)), stream(s) {
-    currentTableBlock = -1;
+        :size(0), maxindex(-1), maxsindex(0), currentTableBlock(-1),
+        currentTableIndex(0), currentDataBlock(-1), currentStreamSize(0),
+        entrystream(new OleEntryStream(this)), stream(s) {
     // read start
     size = input->read(data, 512, 512);
     if (size != 512) {
@@ -180,8 +181,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    // a file of less than 2 GiB has at most 2^22 blocks
+    const int32_t maxblocks = 1<<22;
+    if (!checkHeader(data, size) || nBat < 0 || nXBat < 0
+            || nXBat > maxblocks/128 || nBat > maxblocks/128
+            || nBat > 128*nXBat+109) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
@@ -198,6 +202,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     if (ptOffset > max) max = ptOffset;
     if (128*(nBat-1) > max) max = 128*(nBat-1);
 
+    if (max > maxblocks-4 || input->size() > (int64_t)maxblocks*512-1) {
+        stream->m_status = Error;
+        stream->m_error = "Invalid OLE file.";
+        return;
+    }
     int32_t toread = (max+2)*512;
     if (input->size() >= 0 && input->size() < toread) {
         stream->m_status = Error;
@@ -214,17 +223,26 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         return;
     }
     maxindex = size/512-2;
+    if (ptOffset < 0 || ptOffset > maxindex) {
+        stream->m_status = Error;
+        stream->m_error = "Invalid OLE file.";
+        return;
+    }
 
     // read any remaining BAT entries from XBAT blocks
-    xBatOffset = 512 + 512 * xBatOffset;
     for (int j = 0; j < nXBat; ++j) {
+        if (xBatOffset < 0 || xBatOffset > maxindex) {
+            stream->m_status = Error;
+            stream->m_error = "pointer out of range.";
+            return;
+        }
+        xBatOffset = 512 + 512 * xBatOffset;
         for (int i = 0; i<127 && (int)batIndex.size() < nBat; ++i) {
             int32_t p;
             if (!readInt32(4*i + xBatOffset, p)) { return; }
             batIndex.push_back(p);
         }
         if (!readInt32(508 + xBatOffset, xBatOffset)) { return; }
-        xBatOffset = 512 + 512 * xBatOffset;
     }
 
     // print all bat blocks
@@ -240,7 +258,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // collect all sbat blocks
 //    fprintf(stderr, "sbat blocks\n");
-    while (sBatOffset >= 0 && sbatIndex.size() < 1000) {
+    while (sBatOffset >= 0 && sBatOffset <= maxindex
+            && sbatIndex.size() < 1000) {
         sbatIndex.push_back(sBatOffset);
 /*        const char* b = data+(1+sBatOffset)*512;
         fprintf(stderr, "%4.i\n", sBatOffset);
@@ -256,7 +275,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     // read the info for the root entry
     currentDataBlock = (1+ptOffset)*512 + 0x74;
     if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
-    while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
+    while (currentDataBlock >= 0 && currentDataBlock <= maxindex
+            && sbatbIndex.size() < 16000) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
     }
@@ -266,6 +286,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentTableIndex = 0;
 }
 OleInputStream::~OleInputStream() {
+    // the stream belongs to p
+    m_entrystream = 0;
     delete p;
 }
 OleInputStream::Private::~Private() {
@@ -280,6 +302,10 @@ OleInputStream::Private::nextBlock(int32_t in) {
         return -4;
     }
     bid = batIndex[bid]+1;
+    if (bid < 1 || bid > maxindex+1) {
+        fprintf(stderr, "error 7: block table out of range %i\n", in);
+        return -4;
+    }
     int32_t next = in%128*4;
     next += 512*bid;
     if (next < 0 || size - 4 < next) {
@@ -331,7 +357,7 @@ OleInputStream::Private::getCurrentSmallBlock() {
     const char* d = data;
     // each block of 512 has 8 blocks of 64
     int32_t i = currentDataBlock/8;
-    if (i < 0 || i >= (int32_t)sbatbIndex.size()) {
+    if (currentDataBlock < 0 || i >= (int32_t)sbatbIndex.size()) {
         return 0;
     }
     i = 512*(1+sbatbIndex[i]) + (currentDataBlock%8)*64;
@@ -372,14 +398,19 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    if (currentDataBlock > ((currentStreamSize < 4096) ?maxsindex :maxindex)
+            || currentStreamSize <= 0) {
         currentDataBlock = -1;
     }
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status) {
+        m_entrystream = 0;
+        return 0;
+    }
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -389,6 +420,10 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Invalid OLE file.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
-- 
2.43.0


From 17ff71a62433d966d080abc4e375efa091494ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 17/25] fix: process: signal and process id swapped, last part
 of the input not written, deadlock on full pipes, SIGPIPE

---
 lib/processinputstream.cpp | 92 +++++++++++++++++++++++++++++++++-----
 1 file changed, 80 insertions(+), 12 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..f2f6a87 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -23,6 +23,8 @@
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
+#include <fcntl.h>
+#include <poll.h>
 
 using namespace std;
 using namespace Strigi;
@@ -35,6 +37,39 @@ using namespace Strigi;
 extern char **environ;
 #endif
 
+namespace {
+/**
+ * Write without being ended by SIGPIPE when the command stopped reading.
+ **/
+ssize_t
+writeNoSignal(int fd, const char* b, int32_t n) {
+    sigset_t pipe, old;
+    sigemptyset(&pipe);
+    sigaddset(&pipe, SIGPIPE);
+    sigprocmask(SIG_BLOCK, &pipe, &old);
+    ssize_t m = write(fd, b, n);
+    const int e = errno;
+    if (m < 0 && e == EPIPE) {
+        sigset_t pending;
+        sigpending(&pending);
+        if (sigismember(&pending, SIGPIPE) && !sigismember(&old, SIGPIPE)) {
+            int sig;
+            sigwait(&pipe, &sig);
+        }
+    }
+    sigprocmask(SIG_SETMASK, &old, 0);
+    errno = e;
+    return m;
+}
+/**
+ * The ends of the pipes that we keep are not for other commands.
+ **/
+void
+keep(int fd) {
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
+}
+}
+
 ProcessInputStream::ProcessInputStream(const vector<string>& a,
         InputStream* input) {
     this->input = input;
@@ -63,7 +98,7 @@ ProcessInputStream::~ProcessInputStream() {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
         waitpid(pid, &status , 0);
     }
@@ -79,7 +114,7 @@ ProcessInputStream::writeToPipe() {
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
+    if (n <= 0) {
         if (input->status() == Error) {
             m_status = Error;
             m_error = input->error();
@@ -91,23 +126,51 @@ ProcessInputStream::writeToPipe() {
         fdin = -1;
     } else {
         // write into the pipe
-        ssize_t m = write(fdin, b, n);
+        ssize_t m = writeNoSignal(fdin, b, n);
+        if (m < 0 && (errno == EAGAIN || errno == EINTR)) {
+            m = 0;
+        }
         if (m < 0) {
-            m_error = strerror(errno);
-            m_status = Error;
+            // a command may stop reading before all input was given
+            if (errno != EPIPE) {
+                m_error = strerror(errno);
+                m_status = Error;
+            }
             input = 0;
-        } else if (m != n) {
-            input->reset(pos+n);
+            close(fdin);
+            fdin = -1;
+        } else if (m != n && input->reset(pos+m) != pos+m) {
+            m_error = input->error();
+            m_status = Error;
         }
     }
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout <= 0) return -1;
-    if (input && input->status() == Ok) {
-        writeToPipe();
+    // feed the command until it has output for us
+    while (input) {
+        struct pollfd fds[2];
+        fds[0].fd = fdout;
+        fds[0].events = POLLIN;
+        fds[1].fd = fdin;
+        fds[1].events = POLLOUT;
+        fds[0].revents = fds[1].revents = 0;
+        if (poll(fds, 2, -1) < 0 && errno != EINTR) {
+            m_error = strerror(errno);
+            m_status = Error;
+            return -1;
+        }
+        if (fds[0].revents) break;
+        if (fds[1].revents) {
+            writeToPipe();
+            if (m_status == Error) return -1;
+        }
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
@@ -145,9 +208,10 @@ ProcessInputStream::runCmd() {
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
         fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        _exit(EXIT_FAILURE);
     }
     close(p[1]);
+    keep(p[0]);
     fdout = p[0];
 }
 void
@@ -180,10 +244,14 @@ ProcessInputStream::runCmdWithInput() {
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
         fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        _exit(EXIT_FAILURE);
     }
     close(pin[0]);
     close(pout[1]);
+    keep(pout[0]);
+    keep(pin[1]);
+    // we must go on reading when the command does not read
+    fcntl(pin[1], F_SETFL, O_NONBLOCK);
     fdout = pout[0];
     fdin = pin[1];
 }
-- 
2.43.0


From 9efdf99859ba27ef10164f19d10c9fa8f7e8c3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 18/25] fix: sdf: delimiter across blocks missed, first
 character of an entry lost, entries larger than the block on inputs that
 cannot go back

---
 lib/sdfinputstream.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..c76428e 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -108,11 +108,15 @@ SdfInputStream::nextEntry() {
         if (m_input->status() == Ok) {
             nread = m_input->read(dummy, 4, 4);
             if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
+                nread = m_input->read(dummy, 1, 1);
                 while (m_input->status() == Ok && (
                         strncmp(dummy, "\n", 1) == 0
                         || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
+                    nread = m_input->read(dummy, 1, 1);
+                }
+                // this is the first character of the next entry
+                if (nread == 1 && *dummy != '\n' && *dummy != '\r') {
+                    m_input->reset(m_input->position()-1);
                 }
             }
         }
@@ -123,19 +127,25 @@ SdfInputStream::nextEntry() {
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
     const char* start;
     const char* end;
-    int32_t total = 0;
+    // the whole entry is read at once: the delimiter may lie across any two
+    // blocks and the input may only be able to go back in what was read last
+    int32_t toread = 1024;
     const int64_t pos = m_input->position();
     int64_t len=0;
     
     while (m_input->status() == Ok) {
-        nread = m_input->read(start, 1024, 0);
+        nread = m_input->read(start, toread, 0);
         if (nread > 0) {
             end = m_searcher.search(start, nread);
             if (end) {
-                len = end - start + total;
+                len = end - start;
                 break;
             }
-            total += nread;
+            if (m_input->status() == Ok) {
+                if (nread > 256*1024*1024) break;
+                toread = 2*nread;
+                m_input->reset(pos);
+            }
         }    
     }    
     if (m_input->status() == Error) {
-- 
2.43.0


From 2ea595d8f519bdc2bdabdcc2a05e3da1e935e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 19/25] fix: mail, base64, provider: reads outside of short
 values, character after a folded line lost

---
 lib/base64inputstream.cpp         | 2 +-
 lib/mailinputstream.cpp           | 4 ++--
 lib/substreamproviderprovider.cpp | 1 -
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..526b11a 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -186,7 +186,7 @@ string
 Base64InputStream::decode(const char* in, string::size_type length) {
     initialize();
     string d;
-    if (length%4) return d;
+    if (length == 0 || length%4) return d;
     initialize();
     string::size_type words = length/4;
     d.reserve(words*3);
diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..d733691 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -157,7 +157,7 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             while (q2 < e && *q2 != '?') q2++;
             end = q2+1;
             while (end < e && *end != '?') end++;
-            if (e - end < 1 || end[1] != '=') {
+            if (e - end < 2 || end[1] != '=') {
                 s++;
                 continue;
             }
@@ -191,7 +191,7 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                 && (s[2] == 9 || s[2] == 32)) {
             // skip the CRLF WSP used for folding the header lines
             decoded.append(p, s-p);
-            s = p = s + 4;
+            s = p = s + 3;
         } else {
             s++;
         }
diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..dfc9f7c 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,7 +38,6 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
-- 
2.43.0


From 53c9a60f79c969705de1df96b9b4927ae7000270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 20/25] fix: mail: first line that starts with a blank taken
 for a header, read errors reported as end; zip: bytes lost at the end of cut
 archives

---
 lib/mailinputstream.cpp | 13 +++++++++----
 lib/zipinputstream.cpp  |  9 ++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index d733691..a56fbf7 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -385,7 +385,12 @@ MailInputStream::Private::readHeaderLine() {
         if (nread < linepos+1) {
             completeLine = true;
             lineend = linestart + nread;
-            m->m_status = Eof;
+            if (m->m_input->status() == Error) {
+                m->m_status = Error;
+                m->m_error = m->m_input->error();
+            } else {
+                m->m_status = Eof;
+            }
             return;
         }
         m->m_input->reset(nextLineStartPosition);
@@ -413,7 +418,7 @@ MailInputStream::Private::readHeaderLine() {
                 } else if (state == 1) { // '\r'
                     if (c == '\n') {
                         state = 3;
-                    } else if (c == '\r' || !isspace(c)) { // end
+                    } else if (c == '\r' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -421,7 +426,7 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -676,7 +681,7 @@ MailInputStream::nextEntry() {
     }
     p->scanBody();
 
-    if (m_entrystream == 0) {
+    if (m_entrystream == 0 && m_status == Ok) {
         m_status = Eof;
     }
     p->ensureFileName();
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 7cd5c95..c5ece1d 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -68,11 +68,10 @@ ZipInputStream::nextEntry() {
             const char* c;
             int64_t p = m_input->position();
             int32_t n = m_input->read(c, 16, 16);
-            if (n == 16) {
-                n = readLittleEndianUInt32((const unsigned char*)c);
-                if (n != 0x08074b50) {
-                    m_input->reset(p);
-                }
+            if (n > 0 && (n < 16
+                    || readLittleEndianUInt32((const unsigned char*)c)
+                        != 0x08074b50)) {
+                m_input->reset(p);
             }
         } else {
             int64_t size = m_entrystream->size();
-- 
2.43.0


From 55b89729c70582b75cd14792a875d87569f20a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 21/25] fix: find the terminator at offsets near a multiple of
 4 GiB

The distance between the position and the end of the searched part was
cut to 32 bits, so data that was never searched could be handed out.
---
 lib/stringterminatedsubstream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index b3904c6..596002e 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -37,7 +37,7 @@ public:
     InputStream* m_input;
 
     Private(InputStream* i, const std::string& terminator)
-            : m_offset(i->position()), furthest(0), m_input(i) {
+            : m_offset(i->position()), furthest(i->position()), m_input(i) {
         m_searcher.setQuery(terminator);
     }
 };
@@ -61,10 +61,10 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
 
     // check if we already read enough
     const int64_t pos = p->m_input->position();
-    nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
-        if (max < min || max > nread) {
-            max = nread;
+    const int64_t known = p->furthest - pos;
+    if (min <= known) {
+        if (max < min || max > known) {
+            max = (known > INT32MAX) ?INT32MAX :(int32_t)known;
         }
         nread = p->m_input->read(start, min, max);
         if (nread < -1) {
-- 
2.43.0


From 67f6ef688e0149f5197e2397d24905eba722563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 22/25] fix: lzma: end marker before the size of the header
 taken for a healthy end

---
 lib/lzmainputstream.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..2dc8bc6 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -157,15 +157,18 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         p->m_status = Error;
         return -1;
     }
-    if (inProcessed == 0 && outProcessed == 0) {
-        if (p->m_size != -1 || status != LZMA_STATUS_FINISHED_WITH_MARK) {
+    if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
+        if (p->m_size != -1 && p->m_size != bytesDecompressed) {
+            // the end marker comes before the size from the header is reached
             p->m_error = "unexpected end";
             p->m_status = Error;
             return -1;
         }
         p->m_size = bytesDecompressed;
-    } else if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
-        p->m_size = bytesDecompressed;
+    } else if (inProcessed == 0 && outProcessed == 0) {
+        p->m_error = "unexpected end";
+        p->m_status = Error;
+        return -1;
     }
     return (int32_t)outProcessed;
 }
-- 
2.43.0


From 2352fa6c306499033548b41f4035bf9a2729d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 23/25] fix: charset conversion: characters kept by the
 converter lost at the end of the text

---
 lib/encodinginputstream.cpp | 17 ++++++++++++-----
 lib/inputstreamreader.cpp   | 19 +++++++++++++------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index cf544f3..761b4c2 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -94,7 +94,10 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     size_t inbytesleft = charbuf.avail;
     size_t outbytesleft = space;
     char *outbuf = start;
-    size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    // at the end of the input, write what the converter still keeps
+    size_t r = (input)
+        ? iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft)
+        : iconv(converter, 0, 0, &outbuf, &outbytesleft);
     int32_t nwritten;
     if (r == (size_t)-1) {
         switch (errno) {
@@ -144,6 +147,9 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         p->pendingPos += n;
         return n;
     }
+    if (p->finishedEncoding) {
+        return -1;
+    }
     // fill up charbuf
     if (p->input && p->charbuf.readPos == p->charbuf.start) {
         const char *begin;
@@ -162,12 +168,13 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
             if (p->charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+        } else {
+            // copy data into other buffer
+            std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
+            p->charbuf.avail = numRead + p->charbuf.avail;
         }
-        // copy data into other buffer
-        std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
-        p->charbuf.avail = numRead + p->charbuf.avail;
     }
     // decode
     if (space < (int32_t)sizeof(p->pending)) {
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..9587a76 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -77,7 +77,10 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
     size_t inbytesleft = charbuf.avail;
     size_t outbytesleft = sizeof(wchar_t)*space;
     char *outbuf = (char*)start;
-    size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    // at the end of the input, write what the converter still keeps
+    size_t r = (input)
+        ? iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft)
+        : iconv(converter, 0, 0, &outbuf, &outbytesleft);
     int32_t nwritten;
     if (r == (size_t)-1) {
         switch (errno) {
@@ -96,7 +99,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
             break;
         default:
             char tmp[10];
@@ -119,6 +122,9 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
 }
 int32_t
 InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
+    if (finishedDecoding) {
+        return -1;
+    }
     // fill up charbuf
     if (input && charbuf.readPos == charbuf.start) {
         const char *begin;
@@ -137,12 +143,13 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             if (charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+        } else {
+            // copy data into other buffer
+            std::memmove(charbuf.start + charbuf.avail, begin, numRead);
+            charbuf.avail = numRead + charbuf.avail;
         }
-        // copy data into other buffer
-        std::memmove(charbuf.start + charbuf.avail, begin, numRead);
-        charbuf.avail = numRead + charbuf.avail;
     }
     // decode
     int32_t n = decode(start, space);
-- 
2.43.0


From 836ab031203af565ccd26cca011b33594b6f02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 24/25] fix: charset conversion: buffer overrun and false
 errors when the output is full

---
 lib/encodinginputstream.cpp | 6 +++++-
 lib/inputstreamreader.cpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 761b4c2..00f5564 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -99,6 +99,8 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         ? iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft)
         : iconv(converter, 0, 0, &outbuf, &outbytesleft);
     int32_t nwritten;
+    // input that could not be converted because the output is full
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -117,6 +119,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
             nwritten = (int32_t)(outbuf - start);
+            charsLeft = (int32_t)inbytesleft;
             break;
         default:
             char tmp[10];
@@ -151,7 +154,8 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         return -1;
     }
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (p->input && p->charbuf.readPos == p->charbuf.start
+            && p->charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 9587a76..948e5aa 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -82,6 +82,8 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         ? iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft)
         : iconv(converter, 0, 0, &outbuf, &outbytesleft);
     int32_t nwritten;
+    // input that could not be converted because the output is full
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -100,6 +102,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
             nwritten = (int32_t)(((wchar_t*)outbuf) - start);
+            charsLeft = (int32_t)inbytesleft;
             break;
         default:
             char tmp[10];
@@ -126,7 +129,8 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
         return -1;
     }
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && charbuf.readPos == charbuf.start
+            && charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
-- 
2.43.0


From 59f296694aaba16b70df9f84d3ea544d6e021544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 25/25] fix: EncodingInputStream: crash when no input encoding
 is given

---
 lib/encodinginputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 00f5564..0d7057e 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -51,7 +51,9 @@ public:
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
-- 
2.43.0

