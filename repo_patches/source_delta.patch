From d1f74906c1f6ae5267799ffbd7a381e21ded5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 01/29] fix: growing a stream buffer beyond 1 GiB overflowed
 the buffer size

---
 include/strigi/streambuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/streambuffer.h b/include/strigi/streambuffer.h
index 5b26435..e5f6943 100644
--- a/include/strigi/streambuffer.h
+++ b/include/strigi/streambuffer.h
@@ -171,14 +171,14 @@ StreamBuffer<T>::makeSpace(int32_t needed) {
 
     // still not enough space, we have to allocate more
 //    printf("resize %i %i %i %i %i\n", avail, needed, space, size + needed - space, size);
-    if (size > needed - space) {
+    if (size > needed - space && size <= 0x3fffffff) {
         // double the buffer size
         space += size;
         setSize(2 * size);
         return space;
     }
     // just allocate what is needed
-    setSize(size + needed - space);
+    setSize(size + (needed - space));
     return needed;
 }
 template <class T>
-- 
2.43.0


From 5a417e997e094d69d3d8db974d9ffe015a6ad9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 02/29] fix: skipping in a stream without a buffer passed over
 everything

---
 include/strigi/bufferedstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strigi/bufferedstream.h b/include/strigi/bufferedstream.h
index 05f5500..53d1e69 100644
--- a/include/strigi/bufferedstream.h
+++ b/include/strigi/bufferedstream.h
@@ -182,7 +182,9 @@ BufferedStream<T>::skip(int64_t ntoskip) {
     int32_t nread;
     int64_t skipped = 0;
     while (ntoskip) {
-        int32_t step = (int32_t)((ntoskip > buffer.size) ?buffer.size :ntoskip);
+        // the buffer may not have been allocated yet
+        int32_t maxstep = (buffer.size > 0) ?buffer.size :1;
+        int32_t step = (int32_t)((ntoskip > maxstep) ?maxstep :ntoskip);
         nread = read(begin, 1, step);
         if (nread <= 0) {
             return skipped;
-- 
2.43.0


From b6ec248b5d31575727c5c21a5bbaacf0099be9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 03/29] fix: StringStream truncated large skips and ignored min
 when max is smaller

---
 include/strigi/stringstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..8a3d1e7 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -111,7 +111,8 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         return -1;
     }
     if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    // if max is smaller than min, there is no maximum
+    int32_t nread = (max > left || max < 1 || max < min) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
@@ -123,6 +124,8 @@ template <class T>
 int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
+    // the data is never larger than what fits in an int32_t
+    if (ntoskip > 0x7fffffff) ntoskip = 0x7fffffff;
     const T* start;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
-- 
2.43.0


From 7f7059d158ab2346eeb9aaf8c2703177c799dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 04/29] fix: SubInputStream left its range, lost errors and
 miscounted at the end

---
 lib/subinputstream.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..fb38b2d 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -33,6 +33,7 @@ SubInputStream::SubInputStream(InputStream *i, int64_t length)
 }
 int32_t
 SubInputStream::read(const char*& start, int32_t min, int32_t max) {
+    if (m_status == Error) return -2;
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
         if (left == 0) {
@@ -56,8 +57,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -80,21 +81,24 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
-    m_position = m_input->reset(newpos + m_offset);
-    if (m_position < m_offset) {
-        cerr << "########### m_position " << m_position << " newpos " << newpos
-            << endl;
+    if (m_status == Error) return -2;
+    // do not leave the substream
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
+    const int64_t pos = m_input->reset(newpos + m_offset);
+    if (pos < m_offset) {
         m_status = Error;
         m_error = m_input->error();
-    } else {
-        m_position -= m_offset;
-        m_status = m_input->status();
+        if (m_error.empty()) m_error = "Could not reset the stream.";
+        return -2;
     }
+    m_position = pos - m_offset;
+    m_status = (m_position == m_size) ?Eof :Ok;
     return m_position;
 }
 int64_t
 SubInputStream::skip(int64_t ntoskip) {
 //    fprintf(stderr, "subskip pos: %li ntoskip: %li m_offset: %li m_size: %li\n", m_position, ntoskip, m_offset, m_size);
+    if (m_status == Error) return -2;
     if (m_size == m_position) {
         m_status = Eof;
         return -1;
@@ -112,10 +116,13 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) m_position += skipped;
         if (m_position == m_size) {
             m_status = Eof;
-        } else if (skipped <= 0) {
+        } else if (skipped < ntoskip && m_size == -1) {
+            m_status = Eof;
+            m_size = m_position;
+        } else if (skipped < ntoskip) {
             m_status = Error;
             m_error = "Premature end of stream\n";
             skipped = -2;
-- 
2.43.0


From 84283c854a562c5e9119292602c81b15bb9e9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 05/29] fix: MMapFileInputStream: empty files, skipping in
 failed streams, bad close

---
 lib/mmapfileinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..650aa4c 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -41,7 +41,7 @@ MMapFileInputStream::MMapFileInputStream(const char* filepath) {
         m_error += "': ";
         m_error += strerror(errno);
         m_status = Error;
-        close(fd);
+        if (fd != -1) close(fd);
         return;
     }
     m_size = sb.st_size;
@@ -72,6 +72,10 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (m_status == Error) return -2;
     if (m_status == Eof) return -1;
     int32_t n = max(_min, _max);
+    if (m_position == m_size) {
+        m_status = Eof;
+        return -1;
+    }
     if (n >= m_size - m_position) {
         m_status = Eof;
         n = (int32_t)(m_size - m_position);
@@ -82,6 +86,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From 5e9cd9b58e9cd3f835811e674fc677510dbde2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 06/29] fix: FileInputStream took an unreadable file of size 0
 for an empty one

---
 lib/fileinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index 820b831..1cb0d16 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -76,6 +76,11 @@ FileInputStream::open(FILE* f, const char* path, int32_t buffersize) {
                 m_size = -1;
                 fseeko(file, 0, SEEK_SET);
             } else {
+                if (ferror(file)) {
+                    // the file is not empty, it is unreadable
+                    m_error = "Could not read from file '" + filepath + "'.";
+                    m_status = Error;
+                }
                 fclose(file);
                 file = 0;
                 return;
-- 
2.43.0


From f41fe2bcae2ba68df21c39dde26efb219d7afa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 07/29] fix: SkippingFileInputStream lost errors and data

Reading ran past errors without error text, reported the end of the file
with 0 items, could not rewind files that cannot seek and took unreadable
files for empty ones.
---
 lib/skippingfileinputstream.cpp | 77 +++++++++++++++++++++++----------
 lib/skippingfileinputstream.h   |  4 ++
 2 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..d7bdb8c 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -32,6 +32,7 @@ using namespace std;
 SkippingFileInputStream::SkippingFileInputStream(const char* filepath) {
     buffer = 0;
     buffersize = 0;
+    buffered = rest = 0;
     if (filepath == 0) {
         file = 0;
         m_error = "No filename was provided.";
@@ -71,6 +72,10 @@ SkippingFileInputStream::open(FILE* f, const char* path) {
             if (n == 1) {
                 m_size = -1;
                 fseeko(file, 0, SEEK_SET);
+            } else if (ferror(file)) {
+                // the file is not empty, it is unreadable
+                m_error = "Could not read from file '" + filepath + "'.";
+                m_status = Error;
             }
         }
     }
@@ -86,9 +91,14 @@ SkippingFileInputStream::~SkippingFileInputStream() {
 }
 int32_t
 SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
-    if (!file) {
-         m_status = Error;
-         return -2; // error
+    if (m_status == Error) return -2;
+    if (m_position == m_size) {
+        m_status = Eof;
+        return -1;
+    }
+    // data that was rewound over is delivered first
+    if (rest > 0) {
+        memmove(buffer, buffer + buffered - rest, rest);
     }
     // take a decent buffersize that can hold the request
     int32_t n = max(_min, _max);
@@ -97,47 +107,70 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     }
     if (n > buffersize) {
         if (_max <= 0) {
-            n = max(n, 2 * buffersize);
+            if (buffersize <= 0x3fffffff) n = max(n, 2 * buffersize);
             if (m_size != -1 && n > m_size - m_position) {
-                n = m_size - m_position + 1;
+                n = (int32_t)(m_size - m_position) + 1;
             }
         }
-        buffer = (char*)realloc(buffer, n);
-        buffersize = n;
+        if (n > buffersize) {
+            buffer = (char*)realloc(buffer, n);
+            buffersize = n;
+        }
+    }
+    int32_t nr = n;
+    buffered = rest;
+    if (rest < n) {
+        nr = rest + (int32_t)fread(buffer + rest, 1, n - rest, file);
+        buffered = nr;
     }
-    int32_t nr = (int32_t)fread(buffer, 1, n, file);
-    m_position = ftell(file);
+    rest = buffered - nr;
+    m_position += nr;
     if (nr != n) {
         if (ferror(file)) {
+            m_error = "Could not read from file '" + filepath + "'.";
             m_status = Error;
-        } else {
-            m_status = Eof;
-            if (m_size == -1) {
-                m_size = m_position;
-            }
+            return -2;
+        }
+        m_status = Eof;
+        if (m_size == -1) {
+            m_size = m_position;
         }
+        if (nr == 0) return -1;
     }
     start = buffer;
     return nr;
 }
 int64_t
 SkippingFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
+    // without a size there is no telling how far can be skipped
+    if (m_size == -1) return InputStream::skip(ntoskip);
     int64_t oldpos = m_position;
     if (reset(m_position + ntoskip) == -2) return -2;
     return m_position - oldpos;
 }
 int64_t
 SkippingFileInputStream::reset(int64_t pos) {
-    if (!file) {
-         m_status = Error;
-         return -2; // error
-    }
+    if (m_status == Error) return -2;
     if (m_size >= 0 && pos > m_size) pos = m_size;
-    if (fseek(file, pos, SEEK_SET)) {
-        m_status = Error;
-        return -2;
+    const int64_t d = m_position - pos;
+    if (d <= buffered - rest && -d <= rest) {
+        // the data is still in the buffer, also if the file cannot seek
+        m_position = pos;
+        rest += (int32_t)d;
+    } else if (m_size == -1 && d < 0) {
+        // the size is not known, so only reading tells how far there is data
+        InputStream::skip(-d);
+        return (m_status == Error) ?-2 :m_position;
+    } else {
+        if (fseeko(file, pos, SEEK_SET)) {
+            m_error = "Could not seek in file '" + filepath + "'.";
+            m_status = Error;
+            return -2;
+        }
+        m_position = pos;
+        buffered = rest = 0;
     }
-    m_position = ftell(file);
     m_status = (m_position == m_size) ?Eof :Ok;
     return m_position;
 }
diff --git a/lib/skippingfileinputstream.h b/lib/skippingfileinputstream.h
index b504a57..8c49933 100644
--- a/lib/skippingfileinputstream.h
+++ b/lib/skippingfileinputstream.h
@@ -33,6 +33,10 @@ private:
     char *buffer;
     std::string filepath;
     int32_t buffersize;
+    /** the number of bytes in the buffer */
+    int32_t buffered;
+    /** the number of bytes at the end of the buffer that are not read yet */
+    int32_t rest;
 
     void open(FILE* f, const char* path);
 
-- 
2.43.0


From 120645ea955cc97fabb79928f27c6bfb750e9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 08/29] fix: SkippingFileInputStream2 skipped past the end and
 failed without reporting it

---
 lib/skippingbufferedstream.h     | 29 ++++++++++++++++-------------
 lib/skippingfileinputstream2.cpp |  8 ++++++++
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/lib/skippingbufferedstream.h b/lib/skippingbufferedstream.h
index c22e12a..d6a740d 100644
--- a/lib/skippingbufferedstream.h
+++ b/lib/skippingbufferedstream.h
@@ -169,7 +169,7 @@ SkippingBufferedStream<T>::reset(int64_t newpos) {
     if (StreamBase<T>::m_status == Error) return -2;
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos - d >= buffer.start && -d < buffer.avail) {
+    if (d <= buffer.readPos - buffer.start && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
@@ -181,23 +181,25 @@ template <class T>
 int64_t
 SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     assert(ntoskip >= 0);
-    if (ntoskip == 0) return 0;
-    if (buffer.avail > ntoskip) {
-        buffer.avail -= (int32_t)ntoskip;
-        buffer.readPos += ntoskip;
-        StreamBase<T>::m_position += ntoskip;
-        return ntoskip;
-    }
+    if (StreamBase<T>::m_status == Error) return -2;
+    if (StreamBase<T>::m_status == Eof || ntoskip == 0) return 0;
     int32_t frombuffer = buffer.avail;
+    if (frombuffer >= ntoskip) frombuffer = (int32_t)ntoskip;
+    buffer.avail -= frombuffer;
+    buffer.readPos += frombuffer;
     StreamBase<T>::m_position += frombuffer;
-    int64_t oldpos = StreamBase<T>::m_position;
-    buffer.avail = 0;
     ntoskip -= frombuffer;
-    int64_t n = (ntoskip) ?advanceInput(ntoskip) :0;
-    if (n < 0) {
+    if (ntoskip == 0) return frombuffer;
+    int64_t oldpos = StreamBase<T>::m_position;
+    int64_t n = advanceInput(ntoskip);
+    if (n < 0 || StreamBase<T>::m_status == Error) {
         StreamBase<T>::m_status = Error;
         return -2;
     }
+    if (StreamBase<T>::m_position == oldpos) {
+        // the input was moved past what is in the buffer
+        buffer.readPos = buffer.start;
+    }
     StreamBase<T>::m_position = oldpos + n;
     if (n < ntoskip) {
         StreamBase<T>::m_status = Eof;
@@ -214,7 +216,8 @@ SkippingBufferedStream<T>::advanceInput(int64_t ntoskip) {
     int32_t nread;
     int64_t skipped = 0;
     while (ntoskip) {
-        int32_t step = (int32_t)((ntoskip > buffer.size) ?buffer.size :ntoskip);
+        int32_t step = (buffer.size > 0) ?buffer.size :1;
+        if (ntoskip < step) step = (int32_t)ntoskip;
         nread = read(begin, 1, step);
         if (nread <= 0) {
             return skipped;
diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index dcfcef2..e772b5f 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -73,6 +73,11 @@ SkippingFileInputStream2::open(FILE* f, const char* path, int32_t buffersize) {
                 m_size = -1;
                 fseeko(file, 0, SEEK_SET);
             } else {
+                if (ferror(file)) {
+                    // the file is not empty, it is unreadable
+                    m_error = "Could not read from file '" + filepath + "'.";
+                    m_status = Error;
+                }
                 fclose(file);
                 file = 0;
                 return;
@@ -116,6 +121,9 @@ int64_t
 SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
     if (m_status == Error) return -1;
     if (file == 0) return 0;
+    // without a size there is no telling how far can be skipped
+    if (m_size == -1) return SkippingBufferedInputStream::advanceInput(ntoskip);
+    if (ntoskip > m_size - m_position) ntoskip = m_size - m_position;
     if (fseeko(file, ntoskip, SEEK_CUR)) {
         m_error = "Could not skip in file '" + filepath + "'.";
         fclose(file);
-- 
2.43.0


From c0f06735ccc32c5de848c16df3f6ab02fc81a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 09/29] fix: DataEventInputStream lost errors and the end while
 skipping

---
 lib/dataeventinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..684f0fd 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -91,6 +91,11 @@ DataEventInputStream::skip(int64_t ntoskip) {
         m_status = input->status();
         m_position = input->position();
         m_size = input->size();
+        if (m_status == Error) m_error = input->error();
+        if (m_status == Eof && !finished) {
+            finish();
+            finished = true;
+        }
     } else {
         // we call the default implementation because it calls
         // read() which is required for sending the signals
@@ -105,7 +110,7 @@ DataEventInputStream::reset(int64_t np) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
-        return m_position;
+        return (m_status == Error) ?-2 :m_position;
     }
 //    fprintf(stderr, "DataEventInputStream::reset\n");
     int64_t newpos = input->reset(np);
-- 
2.43.0


From fddf5df9949affd280a3d4ee4243fa3772dbb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 10/29] fix: KmpSearcher wrote before its table for an empty
 query

---
 lib/kmpsearcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..bf5be7f 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -109,6 +109,8 @@ KmpSearcher::setQuery(const string& query) {
         maxlen = len;
     }
 
+    // the empty string is found everywhere
+    if (len == 0) return;
     preBmGs(p, len, table+256);
     preBmBc(p, len, table);
 }
-- 
2.43.0


From 59643af204c2a4597e3dd5aa85377adc0a3a5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 11/29] fix: StringTerminatedSubStream lost data, errors and
 the end of the stream

---
 include/strigi/stringterminatedsubstream.h |   1 +
 lib/stringterminatedsubstream.cpp          | 170 ++++++++++++---------
 2 files changed, 96 insertions(+), 75 deletions(-)

diff --git a/include/strigi/stringterminatedsubstream.h b/include/strigi/stringterminatedsubstream.h
index fabb40d..a554dc1 100644
--- a/include/strigi/stringterminatedsubstream.h
+++ b/include/strigi/stringterminatedsubstream.h
@@ -36,6 +36,7 @@ class STREAMS_EXPORT StringTerminatedSubStream : public InputStream {
 private:
     class Private;
     Private* const p;
+    int32_t fail();
 public:
     /**
      * @brief Create a stream from an InputStream that stops when it reaches
diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..65674ee 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -33,11 +33,15 @@ class StringTerminatedSubStream::Private {
 public:
     KmpSearcher m_searcher;
     const int64_t m_offset;
+    /** data before this position in the input is known not to contain the
+        terminator */
     int64_t furthest;
+    /** position in the input stream after the end of this stream */
+    int64_t end;
     InputStream* m_input;
 
     Private(InputStream* i, const std::string& terminator)
-            : m_offset(i->position()), furthest(0), m_input(i) {
+            : m_offset(i->position()), furthest(0), end(0), m_input(i) {
         m_searcher.setQuery(terminator);
     }
 };
@@ -54,95 +58,111 @@ StringTerminatedSubStream::offset() const {
 }
 int32_t
 StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
-    if (m_status == Eof) return -1;
     if (m_status == Error) return -2;
-    int32_t nread;
+    if (m_status == Eof) return -1;
+    if (min < 1) min = 1;
+    if (max < min) max = 0;
 
-    // check if we already read enough
+    const int32_t tl = p->m_searcher.queryLength();
     const int64_t pos = p->m_input->position();
-    nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
-        if (max <= 0 || max > nread) {
-            max = nread;
+    // the amount of data from here that is known not to contain the terminator
+    const int64_t known = p->furthest - pos;
+    int32_t nread;
+
+    if (m_size != -1) {
+        // the end was found before
+        if (known <= 0) {
+            m_status = Eof;
+            return -1;
         }
-        nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
-        if (nread > 0) {
-            m_position += nread;
-            if (m_position == m_size) {
-                m_status = Eof;
-            }
+        if (min > known) min = (int32_t)known;
+        if (max <= 0) max = (min > 65536) ?min :65536;
+        if (max < known) {
+            nread = p->m_input->read(start, min, max);
+        } else {
+            // read the terminator too, so the input ends up after it
+            const int64_t total = p->end - pos;
+            if (total > 0x7fffffff) return fail();
+            nread = p->m_input->read(start, (int32_t)total, (int32_t)total);
+            nread = (nread == total) ?(int32_t)known :-1;
         }
-        return nread;
-    }
-
-    // convenience parameter
-    int32_t tl = p->m_searcher.queryLength();
-
-    // increase min and max to accommodate for the length of the terminator
-    int32_t tlmin = min;
-    int32_t tlmax = max;
-    if (tlmin == 0) {
-        tlmin = 1 + tl;
+        if (nread < min || nread > known) return fail();
+    } else if (known >= min) {
+        // there is no need to search
+        if (max <= 0 || max > known) {
+            max = (known > 0x7fffffff) ?0x7fffffff :(int32_t)known;
+        }
+        nread = p->m_input->read(start, min, max);
+        if (nread < min) return fail();
     } else {
-        tlmin += tl;
-    }
-    if (tlmax > 0 && tlmax < tlmin) tlmax = tlmin;
-
-    nread = p->m_input->read(start, tlmin, tlmax);
-    if (nread == -1) {
-        m_status = Eof;
-        return nread;
-    }
-    if (nread < -1) {
-        m_status = Error;
-        m_error = p->m_input->error();
-        return nread;
-    }
+        // increase min and max to accommodate for the length of the terminator
+        if (min > 0x7fffffff - tl) return fail();
+        int32_t tlmin = min + tl;
+        int32_t tlmax = max;
+        if (tlmax > 0 && tlmax < tlmin) tlmax = tlmin;
 
-    const char* end = p->m_searcher.search(start, nread);
-    if (end) {
-        // the end signature was found
-        nread = (int32_t)(end - start);
-        // signal the end of stream at the next call
-        m_status = Eof;
-        // set input stream to point after the terminator
-        p->m_input->reset(pos + nread + tl);
-    } else if (nread >= tlmin) {
-        // we are not at or near the end and read the required amount
-        // reserve the last bit of buffer for rereading to match the terminator
-        // in the next call
-        nread -= tl;
-        p->furthest = pos + nread;
-        // we rewind, but the pointer 'start' will stay valid nontheless
-        p->m_input->reset(pos + nread);
-    } else if (max != 0 && nread > max) {
-        // we are near the end of the stream but cannot pass all data
-        // at once because the amount read is larger than the amount to pass
+        nread = p->m_input->read(start, tlmin, tlmax);
+        if (nread < -1) return fail();
+        if (nread == -1) {
+            nread = 0;
+        }
+        const char* end = (nread > 0) ?p->m_searcher.search(start, nread) :0;
+        if (end) {
+            // the end signature was found
+            nread = (int32_t)(end - start);
+            m_size = m_position + nread;
+            // the input stream will point after the terminator
+            p->end = pos + nread + tl;
+        } else if (nread >= tlmin) {
+            // we are not at or near the end and read the required amount
+            // reserve the last bit of buffer for rereading to match the
+            // terminator in the next call
+            nread -= tl;
+        } else {
+            // we are at the end of the stream
+            m_size = m_position + nread;
+            p->end = pos + nread;
+        }
         p->furthest = pos + nread;
-        p->m_input->reset(pos + max);
-        nread = max;
-    } else {
-        // we are at the end of the stream, so no need to rewind
+        if (max > 0 && nread > max) {
+            // not all data can be passed at once
+            nread = max;
+        }
+    }
+    m_position += nread;
+    int64_t next = pos + nread;
+    if (m_position == m_size) {
         // signal the end of stream at the next call
         m_status = Eof;
+        next = p->end;
     }
-    if (nread > 0) m_position += nread;
-    if (m_status == Eof) {
-        m_size = m_position;
+    // we may rewind, but the pointer 'start' will stay valid nontheless
+    if (p->m_input->position() != next && p->m_input->reset(next) != next) {
+        return fail();
     }
-    return nread;
+    return (nread == 0) ?-1 :nread;
+}
+int32_t
+StringTerminatedSubStream::fail() {
+    m_status = Error;
+    m_error = p->m_input->error();
+    if (m_error.empty()) m_error = "Could not read from substream.";
+    return -2;
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
-    m_position = p->m_input->reset(newpos + p->m_offset);
-    if (m_position >= p->m_offset) {
-        m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
-    } else {
-        // the stream is not positioned at a valid m_position
-        m_status = Error;
-        m_position = -1;
+    if (m_status == Error) return -2;
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
+    if (newpos > m_position) {
+        // reading is the only way to find out where the terminator is
+        InputStream::skip(newpos - m_position);
+        return (m_status == Error) ?-2 :m_position;
     }
+    if (newpos == m_position) return m_position;
+    newpos = p->m_input->reset(newpos + p->m_offset) - p->m_offset;
+    if (newpos < 0) return fail();
+    // the input stream may not have gone back from behind the terminator
+    if (newpos < m_position) m_position = newpos;
+    m_status = (m_position == m_size) ?Eof :Ok;
     return m_position;
 }
-- 
2.43.0


From ecdd4bf8c5e26b0098ec8e3fc2e1b5b9c8d92777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 12/29] fix: InputStreamReader: deliver only the characters
 that were converted

---
 lib/inputstreamreader.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..2ef47dd 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -86,6 +86,11 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
             m_status = Error;
             return -1;
         case EINVAL: // last character is incomplete
+            if ((int32_t)inbytesleft >= charbuf.size) {
+                m_error = "Invalid multibyte sequence.";
+                m_status = Error;
+                return -1;
+            }
             // move from inbuf to the end to the start of
             // the buffer
             std::memmove(charbuf.start, inbuf, inbytesleft);
@@ -96,7 +101,12 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
+            if (nwritten == 0) {
+                m_error = "Character takes too much space.";
+                m_status = Error;
+                return -1;
+            }
             break;
         default:
             char tmp[10];
@@ -120,7 +130,8 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
 int32_t
 InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && charbuf.readPos == charbuf.start
+            && charbuf.avail < charbuf.size) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
-- 
2.43.0


From 05047344e206c163a6d40eca35c56c202e36b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 13/29] fix: EncodingInputStream: deliver only the bytes that
 were converted

---
 lib/encodinginputstream.cpp | 48 +++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..bad1eed 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,14 +40,23 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // a converted piece for which there was no room, e.g. because less space
+    // was asked for than one character takes
+    char piece[64];
+    int32_t pieceStart;
+    int32_t pieceLeft;
+    bool full;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            pieceStart(0), pieceLeft(0), full(false) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
@@ -55,6 +64,13 @@ public:
         }
     }
     int32_t decode(char* start, int32_t space);
+    int32_t takePiece(char* start, int32_t space) {
+        int32_t n = (space < pieceLeft) ?space :pieceLeft;
+        std::memcpy(start, piece + pieceStart, n);
+        pieceStart += n;
+        pieceLeft -= n;
+        return n;
+    }
 };
 
 EncodingInputStream::EncodingInputStream(InputStream* s, const char* inenc,
@@ -90,6 +106,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     size_t inbytesleft = charbuf.avail;
     size_t outbytesleft = space;
     char *outbuf = start;
+    full = false;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
     if (r == (size_t)-1) {
@@ -99,6 +116,11 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
             p->m_status = Error;
             return -1;
         case EINVAL: // last character is incomplete
+            if ((int32_t)inbytesleft >= charbuf.size) {
+                p->m_error = "Invalid multibyte sequence.";
+                p->m_status = Error;
+                return -1;
+            }
             // move from inbuf to the end to the start of
             // the buffer
             std::memmove(charbuf.start, inbuf, inbytesleft);
@@ -109,7 +131,8 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
+            full = true;
             break;
         default:
             char tmp[10];
@@ -132,8 +155,12 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
 }
 int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    if (p->pieceLeft > 0) {
+        return p->takePiece(start, space);
+    }
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (p->input && p->charbuf.readPos == p->charbuf.start
+            && p->charbuf.avail < p->charbuf.size) {
         const char *begin;
         int32_t numRead;
         numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
@@ -160,5 +187,18 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
     // decode
     int32_t n = p->decode(start, space);
     //printf("decoded %i\n", n);
+    if (n == 0 && p->full) {
+        // the next character does not fit, so pass it on in parts
+        n = p->decode(p->piece, sizeof(p->piece));
+        if (n < 0) return n;
+        if (n == 0 && p->full) {
+            m_error = "Character takes too much space.";
+            m_status = Error;
+            return -1;
+        }
+        p->pieceStart = 0;
+        p->pieceLeft = n;
+        return p->takePiece(start, space);
+    }
     return n;
 }
-- 
2.43.0


From a2f49cc3c919df370b64460c00620dec73b0ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 14/29] fix: BZ2InputStream: released decoder state that was
 never initialised, no error text for truncated data

---
 lib/bz2inputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..92c2b3e 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -51,6 +51,7 @@ BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         :p(bis), input(i) {
     // initialize values that signal state
     this->input = input;
+    std::memset(&bzstream, 0, sizeof(bzstream));
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
@@ -111,7 +112,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
-- 
2.43.0


From e190ab26d35e33c0460de2cfcf69c44aa223cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 15/29] fix: LZMAInputStream: no error text for truncated data,
 early end mark changed the size

---
 lib/lzmainputstream.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..9deb604 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -31,7 +31,6 @@ using namespace std;
 class LZMAInputStream::Private {
 public:
     LZMAInputStream* const p;
-    CLzmaProps props;
     CLzmaDec state;
     InputStream *input;
     const char* next_in;
@@ -107,7 +106,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
@@ -150,7 +149,7 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     bytesDecompressed += outProcessed;
     if (res != SZ_OK) {
         ostringstream str;
-        str << "error decompressing dicsize: " << props.dicSize
+        str << "error decompressing dicsize: " << state.prop.dicSize
             << " size: " << p->m_size
             << " decompressed: " << bytesDecompressed;
         p->m_error = str.str();
@@ -165,6 +164,11 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         }
         p->m_size = bytesDecompressed;
     } else if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
+        if (p->m_size != -1 && p->m_size != bytesDecompressed) {
+            p->m_error = "unexpected end";
+            p->m_status = Error;
+            return -1;
+        }
         p->m_size = bytesDecompressed;
     }
     return (int32_t)outProcessed;
-- 
2.43.0


From 99927fb60b39ce3ec76fb651be72fcb1fc4f0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 16/29] fix: Base64InputStream: tables were set up without
 synchronisation, decoding nothing read before the input

---
 lib/base64inputstream.cpp | 59 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..c4401bd 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -44,28 +44,28 @@ public:
 };
 
 
-const unsigned char alphabet[]
-    = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-bool inalphabet[256];
-unsigned char decoder[133];
-bool initializedAlphabet = false;
-void initialize();
-string decode(const char* in, string::size_type length);
-
-
-void
-initialize() {
-    if (!initializedAlphabet) {
-        initializedAlphabet = true;
-        // initialize the translation arrays
-        for (int i=64; i<256; ++i) {
-            inalphabet[i] = 0;
-        }
-        for (unsigned char i=0; i<64; ++i) {
-            inalphabet[alphabet[i]] = true;
-            decoder[alphabet[i]] = i;
-        }
-    }
+// the value of each character of the alphabet, -1 for other characters
+static const signed char decoder[256] = {
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 62, -1, -1, -1, 63,
+    52, 53, 54, 55, 56, 57, 58, 59, 60, 61, -1, -1, -1, -1, -1, -1,
+    -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
+    15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
+    -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
+};
+static inline bool
+inalphabet(unsigned char c) {
+    return decoder[c] >= 0;
 }
 
 Base64InputStream::Base64InputStream(InputStream* i) 
@@ -78,7 +78,6 @@ Base64InputStream::~Base64InputStream() {
 }
 Base64InputStream::Private::Private(Base64InputStream* bi, InputStream* i)
         :p(bi), input(i) {
-    initialize();
     nleft = 0;
     char_count = 0;
     bits = 0;
@@ -146,7 +145,7 @@ Base64InputStream::Private::fillBuffer(char* start, int32_t space) {
             break;
         }
         // we ignore characters that do not fit
-        if (!inalphabet[c]) {
+        if (!inalphabet(c)) {
             continue;
         }
         bits += decoder[c];
@@ -184,10 +183,8 @@ Base64InputStream::Private::fillBuffer(char* start, int32_t space) {
 }
 string
 Base64InputStream::decode(const char* in, string::size_type length) {
-    initialize();
     string d;
-    if (length%4) return d;
-    initialize();
+    if (length == 0 || length%4) return d;
     string::size_type words = length/4;
     d.reserve(words*3);
     const unsigned char* c = (const unsigned char*)in;
@@ -197,8 +194,8 @@ Base64InputStream::decode(const char* in, string::size_type length) {
     }
     char k, l, b[3];
     for (; c < e; c += 4) {
-         if (inalphabet[c[0]]  && inalphabet[c[1]] && inalphabet[c[2]]
-             && inalphabet[c[3]]) {
+         if (inalphabet(c[0])  && inalphabet(c[1]) && inalphabet(c[2])
+             && inalphabet(c[3])) {
             k = decoder[c[1]];
             l = decoder[c[2]];
             b[0] = (char)((decoder[c[0]] << 2) + (k >> 4));
@@ -210,14 +207,14 @@ Base64InputStream::decode(const char* in, string::size_type length) {
          }
     }
     if (in[length-2] == '=') {
-        if (inalphabet[c[0]]  && inalphabet[c[1]]) {
+        if (inalphabet(c[0])  && inalphabet(c[1])) {
             b[0] = (char)((decoder[c[0]] << 2)+((decoder[c[1]] >> 4)));
             d.append(b, 1);
         } else {
             return string();
         }
     } else if (in[length-1] == '=') {
-        if (inalphabet[c[0]]  && inalphabet[c[1]] && inalphabet[c[2]]) {
+        if (inalphabet(c[0])  && inalphabet(c[1]) && inalphabet(c[2])) {
             k = decoder[c[1]];
             b[0] = (char)((decoder[c[0]] << 2) + (k >> 4));
             b[1] = (char)((k             << 4) + (decoder[c[2]] >> 2));
-- 
2.43.0


From 209a1e14a88c02c544cc781562d4a92fd13508cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 17/29] fix: ProcessInputStream: failed pipes, forks and
 partial writes, data lost at the end, wrong kill arguments, child could
 return

---
 lib/processinputstream.cpp | 43 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..22ddc95 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -56,14 +56,14 @@ ProcessInputStream::ProcessInputStream(const vector<string>& a,
     }
 }
 ProcessInputStream::~ProcessInputStream() {
-    if (fdin > 0) {
+    if (fdin >= 0) {
         close(fdin);
     }
-    if (fdout > 0) {
+    if (fdout >= 0) {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
         waitpid(pid, &status , 0);
     }
@@ -79,11 +79,10 @@ ProcessInputStream::writeToPipe() {
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
+    if (n <= 0) {
         if (input->status() == Error) {
             m_status = Error;
             m_error = input->error();
-            n = 0;
         }
         // close the pipe if no more output is available
         input = 0;
@@ -97,15 +96,16 @@ ProcessInputStream::writeToPipe() {
             m_status = Error;
             input = 0;
         } else if (m != n) {
-            input->reset(pos+n);
+            input->reset(pos+m);
         }
     }
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
-    if (fdout <= 0) return -1;
-    if (input && input->status() == Ok) {
+    if (fdout < 0) return -1;
+    if (input) {
         writeToPipe();
+        if (m_status == Error) return -2;
     }
     ssize_t n = ::read(fdout, start, space);
     if (n < 0) {
@@ -115,7 +115,7 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     if (n <= 0) {
         close(fdout);
-        fdout = 0;
+        fdout = -1;
     }
     return (int32_t)n;
 }
@@ -123,13 +123,15 @@ void
 ProcessInputStream::runCmd() {
     int p[2];
     if (pipe(p) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -145,7 +147,7 @@ ProcessInputStream::runCmd() {
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
         fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        _exit(EXIT_FAILURE);
     }
     close(p[1]);
     fdout = p[0];
@@ -154,14 +156,23 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+    if (pipe(pin) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        return;
+    }
+    if (pipe(pout) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close (pin[0]);
+        close (pin[1]);
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
@@ -180,7 +191,7 @@ ProcessInputStream::runCmdWithInput() {
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
         fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        _exit(EXIT_FAILURE);
     }
     close(pin[0]);
     close(pout[1]);
-- 
2.43.0


From d78005adf5f269f04927069cc7484b9043075506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 18/29] fix: TarInputStream: sizes of 2 GiB and more, unbounded
 sscanf and LongLink length, recursion, failed source taken for the end

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 65 ++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..b15169b 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -41,22 +41,28 @@ TarInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    parseHeader();
-    if (m_status) return 0;
-    if (m_entryinfo.size >= 0) {
-        m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    }
+    // entries without a name ('./') are skipped
+    do {
+        parseHeader();
+        if (m_status) return 0;
+    } while (m_entryinfo.filename.empty());
+    m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
 const char*
 TarInputStream::readHeader() {
     // read the first 512 characters
-    const char *begin;
+    const char *begin = 0;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
+    if (m_input->status() == Error) {
+        m_status = Error;
+        m_error = "Error reading header: ";
+        m_error += m_input->error();
+    } else if (nread == 0 || m_input->status() == Eof) {
         m_status = Eof;
     } else if (nread != 512) {
         m_status = Error;
+        m_error = "Premature end of file.";
     }
     return begin;
 }
@@ -101,20 +107,21 @@ TarInputStream::parseHeader() {
     }
     // a tar file should end with at least 2 blocks of '\0' bytes
     bool justZeroes = true;
-    int i, numZeroBlocks = 0;
+    bool firstZeroBlock = true;
+    int i;
     for (i = 0; i < 512 && justZeroes; ++i) {
         justZeroes = hb[i] == 0;
     }
     while (justZeroes) {
-        numZeroBlocks++;
         hb = readHeader();
-        if (numZeroBlocks == 1 && m_status == Eof) {
+        if (firstZeroBlock && m_status == Eof) {
             m_status = Error;
             m_error = "Premature end of file.";
             return;
         } else if (m_status == Error || m_status == Eof) {
             return;
         }
+        firstZeroBlock = false;
         for (i = 0; i < 512 && justZeroes; ++i) {
             justZeroes = hb[i] == 0;
         }
@@ -144,11 +151,20 @@ TarInputStream::parseHeader() {
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
-        if (m_status) return;
+        if (m_status) {
+            m_status = Error;
+            m_error = "Premature end of file.";
+            return;
+        }
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
         if (len == 2) { // skip entry './'
-            return parseHeader();
+            return;
         }
         m_entryinfo.filename.append(hb, 2, len-2);
     } else {
@@ -180,11 +196,18 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    // the field has at most 12 characters and need not be terminated
+    int32_t i = 0;
+    while (i < 12 && b[offset+i] == ' ') ++i;
+    int64_t val = 0;
+    const int32_t start = i;
+    while (i < 12 && b[offset+i] >= '0' && b[offset+i] <= '7') {
+        val = 8*val + (b[offset+i] - '0');
+        ++i;
+    }
+    if (i == start) {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
@@ -193,13 +216,19 @@ TarInputStream::readOctalField(const char *b, int32_t offset) {
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    const int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size < 1 || size > 0x100000) {
+        m_status = Error;
+        m_error = "Error reading LongLink: invalid length.";
+        return;
+    }
+    const int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
-- 
2.43.0


From eb2bf11f08798827774beaa0f5d4645a239bc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 19/29] fix: ArInputStream: no error text for foreign data,
 failing entries ignored, recursion over special entries, zero length name
 table

---
 lib/arinputstream.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..b31b7ba 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -38,6 +38,8 @@ ArInputStream::ArInputStream(InputStream* input)
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
         m_status = Error;
+        m_error = (input->status() == Error) ?input->error() :"";
+        if (m_error.empty()) m_error = "Not an ar archive.";
     }
 }
 ArInputStream::~ArInputStream() {
@@ -47,10 +49,19 @@ ArInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
         m_entrystream->skip(m_entrystream->size());
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
     }
-    readHeader();
+    // special entries only have data for the other entries
+    do {
+        m_entryinfo.type = EntryInfo::Unknown;
+        readHeader();
+    } while (m_status == Ok && m_entryinfo.type == EntryInfo::Unknown);
     if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
@@ -106,6 +117,8 @@ ArInputStream::readHeader() {
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
+            gnufilenames.clear();
+            if (m_entryinfo.size == 0) return;
             nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
             if (nread != m_entryinfo.size) {
                 m_error = "premature end of stream";
@@ -113,10 +126,13 @@ ArInputStream::readHeader() {
                 return;
             }
             gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
+            return;
         } else if (b[1] == ' ') {
-            m_input->skip(m_entryinfo.size);
-            readHeader();
+            if (m_entryinfo.size > 0 && m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
+                m_error = "premature end of stream";
+                m_status = Error;
+            }
+            return;
         } else {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
-- 
2.43.0


From 7b8c1c5eb2bc150e2e3d71e6cbb073b7e4415385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 20/29] fix: CpioInputStream: invalid and large header fields,
 truncated header taken for the end, name read past its end, failing entries
 ignored

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/cpioinputstream.cpp          | 41 +++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..1ea003d 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    int64_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..7491340 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -53,18 +53,20 @@ CpioInputStream::nextEntry() {
         while (m_entrystream->status() == Ok) {
             m_entrystream->skip(m_entrystream->size());
         }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
         if (padding) {
             m_input->skip(padding);
         }
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -78,12 +80,13 @@ CpioInputStream::readHeader() {
     toread = 110;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_status = m_input->status();
-        if (m_status == Eof) {
+        if (nread == -1) {
+            m_status = Eof;
             return;
         }
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
-        if (nread == -1) {
+        if (nread < -1) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -99,11 +102,17 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
-    int32_t filenamesize = readHexField(b+94);
+    const int64_t namesize = readHexField(b+94);
     if (m_status) {
         m_error = "Error parsing entry field.";
         return;
     }
+    if (namesize < 1 || namesize > 0x100000) {
+        m_status = Error;
+        m_error = "Invalid name size in cpio entry.";
+        return;
+    }
+    int32_t filenamesize = (int32_t)namesize;
     char namepadding = (char)((filenamesize+2) % 4);
     if (namepadding) namepadding = (char)(4 - namepadding);
     padding = (char)(m_entryinfo.size % 4);
@@ -120,6 +129,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
@@ -131,19 +141,22 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+int64_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    int64_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
-        val <<= 4;
+        val *= 16;
         c = b[i];
-        if (c > 'F') {
+        if (c >= 'a' && c <= 'f') {
             val += c - 87;
-        } else if (c > '9') {
+        } else if (c >= 'A' && c <= 'F') {
             val += c - 55;
-        } else {
+        } else if (c >= '0' && c <= '9') {
             val += c - 48;
+        } else {
+            m_status = Error;
+            return 0;
         }
     }
     return val;
-- 
2.43.0


From fbd08357f8d4521dd4b16de7027d2524db3c32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 21/29] fix: SdfInputStream: failed rewinds ignored, missing
 error text, 32 bit total, entry used after failure

---
 include/strigi/sdfinputstream.h |  2 +-
 lib/sdfinputstream.cpp          | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/strigi/sdfinputstream.h b/include/strigi/sdfinputstream.h
index e4af8d6..07cfec2 100644
--- a/include/strigi/sdfinputstream.h
+++ b/include/strigi/sdfinputstream.h
@@ -32,7 +32,7 @@ namespace Strigi {
 class STREAMS_EXPORT SdfInputStream : public SubStreamProvider {
 private:
     SubInputStream* substream;
-    int32_t entrynumber;
+    int64_t entrynumber;
     int64_t previousStartOfDelimiter;
     KmpSearcher m_searcher;
     static const std::string delimiter;
diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..015ccfb 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -82,7 +82,16 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
+    if (m_input->reset(previousStartOfDelimiter) != previousStartOfDelimiter) {
+        m_status = Error;
+        m_error = m_input->error();
+        if (m_error.empty()) m_error = "Could not return to the end of the entry.";
+        if (substream != m_entrystream) delete substream;
+        delete m_entrystream;
+        substream = 0;
+        m_entrystream = 0;
+        return 0;
+    }
     int32_t nread = 0;
 
     // read anything that's left over in the previous substream
@@ -94,6 +103,7 @@ SdfInputStream::nextEntry() {
         }
         if (substream->status() == Error) {
             m_status = Error;
+            m_error = substream->error();
         }
         if (substream && substream != m_entrystream) {
             delete substream;
@@ -101,8 +111,7 @@ SdfInputStream::nextEntry() {
         substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
-        m_input->reset(previousStartOfDelimiter);
+        if (m_status != Ok) return 0;
     
         // eat delimiter and following newlines
         if (m_input->status() == Ok) {
@@ -123,7 +132,7 @@ SdfInputStream::nextEntry() {
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
     const char* start;
     const char* end;
-    int32_t total = 0;
+    int64_t total = 0;
     const int64_t pos = m_input->position();
     int64_t len=0;
     
@@ -140,11 +149,17 @@ SdfInputStream::nextEntry() {
     }    
     if (m_input->status() == Error) {
         m_status = Error;
+        m_error = m_input->error();
         m_entrystream = 0;
         return 0;
     }
     
-    m_input->reset(pos);
+    if (m_input->reset(pos) != pos) {
+        m_status = Error;
+        m_error = m_input->error();
+        if (m_error.empty()) m_error = "Could not return to the start of the entry.";
+        return 0;
+    }
     
     if (len > 0) {
         // this stream is an SD
-- 
2.43.0


From 2a5c28220cd4131398cc6a3ae09b64e1457290db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 22/29] fix: TarInputStream: archive that ends inside an entry
 was taken for its end

---
 lib/tarinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index b15169b..d836b53 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -37,9 +37,14 @@ TarInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
         m_entrystream->skip(m_entrystream->size());
-        m_input->skip(numPaddingBytes);
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
+        m_input->skip(numPaddingBytes);
     }
     // entries without a name ('./') are skipped
     do {
-- 
2.43.0


From 37745c93ce052ccf41dacf4b581097d2f62af421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:52 +0000
Subject: [PATCH 23/29] fix: ZipInputStream: failing or truncated entries taken
 for the end, dangling entry after an error, empty and unreadable names

---
 lib/zipinputstream.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..eb361a3 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -59,10 +59,19 @@ ZipInputStream::nextEntry() {
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
             compressedEntryStream->skip(compressedEntryStream->size());
+            if (compressedEntryStream->status() == Error) {
+                m_status = Error;
+                m_error = compressedEntryStream->error();
+            }
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
             uncompressionStream = 0;
+            if (m_status) {
+                delete m_entrystream;
+                m_entrystream = 0;
+                return 0;
+            }
 
             // check for a potential signature and skip it if it is there
             const char* c;
@@ -82,7 +91,10 @@ ZipInputStream::nextEntry() {
             while (m_entrystream->status() == Ok) {
                 m_entrystream->skip(size);
             }
-            if (m_entryinfo.size < 0) {
+            if (m_entrystream->status() == Error) {
+                m_status = Error;
+                m_error = m_entrystream->error();
+            } else if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
                 int32_t n = m_input->read(c, 4, 4);
@@ -99,12 +111,12 @@ ZipInputStream::nextEntry() {
                 if (n != 4) {
                     m_status = Error;
                     m_error = "No valid data descriptor after entry data.";
-                    return 0;
                 }
             }
         }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
     }
     // are we at the end of the zip file?
     if (m_input->status() == Eof) {
@@ -150,13 +162,12 @@ ZipInputStream::readHeader() {
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
         m_error = "Error reading zip header: ";
-        if (nread == -1) {
+        if (nread < 0) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
         }
         m_status = Error;
-        fprintf(stderr, "%s\n", m_error.c_str());
         return;
     }
     hb = (const unsigned char*)b;
@@ -171,10 +182,6 @@ ZipInputStream::readHeader() {
     // check the second half of the signature
     if (hb[2] != 0x03 || hb[3] != 0x04) {
         // this may be the start of the central file header
-        if (hb[2] != 0x01 || hb[3] != 0x02) {
-            fprintf(stderr, "This code in a zip file is strange: %x %x %x %x\n",
-                hb[0], hb[1], hb[2], hb[3]);
-        }
         m_status = Eof;
         return;
     }
@@ -229,11 +236,13 @@ ZipInputStream::readHeader() {
 void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
+    if (len == 0) return;
     const char *begin;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
+        m_status = Error;
         m_error = "Error reading filename: ";
-        if (nread == -1) {
+        if (nread < 0) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
-- 
2.43.0


From 1f6eb3c9841f9dcd239ff6172cd39db7a73cddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:03 +0000
Subject: [PATCH 24/29] fix: RpmInputStream: header sizes were used unchecked

---
 lib/rpminputstream.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..3adcdb8 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -68,11 +68,16 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    // limits as in rpm itself
+    if (nindex < 0 || nindex > 0x100000 || hsize < 0 || hsize > 0x10000000) {
+        m_error = "invalid size of signature\n";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz > 0 && m_input->read(b, sz, sz) != sz) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +89,12 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
+    if (nindex < 0 || nindex > 0x100000 || hsize < 0 || hsize > 0x10000000) {
+        m_error = "invalid size of header\n";
+        return;
+    }
     int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    if (size > 0 && m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
         return;
     }
-- 
2.43.0


From a5d4ac76af92093fab0474e07b557eca84723a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:09 +0000
Subject: [PATCH 25/29] fix: LZMAInputStream asked for more input while the
 decoder still had output

When the last input was used up while the output buffer was full, the rest
of a match was never taken from the decoder: the stream read on and failed
with 'unexpected end of stream' on an intact file.
---
 lib/lzmainputstream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 9deb604..d1b7b6a 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -35,6 +35,7 @@ public:
     InputStream *input;
     const char* next_in;
     int32_t avail_in;
+    bool outputFull;
     int64_t bytesDecompressed;
 
     Private(LZMAInputStream* p, InputStream* i);
@@ -92,6 +93,7 @@ LZMAInputStream::Private::Private(LZMAInputStream* bis, InputStream* i)
 
     // signal that we need to read into the buffer
     avail_in = 0;
+    outputFull = false;
 
     // set the minimum size for the output buffer
     p->setMinBufSize(262144);
@@ -125,7 +127,7 @@ LZMAInputStream::fillBuffer(char* start, int32_t space) {
 int32_t
 LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     // make sure there is data to decompress
-    if (avail_in == 0) {
+    if (avail_in == 0 && !outputFull) {
         readFromStream();
         if (p->m_status != Ok) {
             // no data was read
@@ -147,6 +149,9 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     avail_in -= (int32_t)inProcessed;
     next_in += (int32_t)inProcessed;
     bytesDecompressed += outProcessed;
+    // when there was no more room, the rest may not need further input
+    outputFull = status == LZMA_STATUS_NOT_FINISHED
+        || status == LZMA_STATUS_MAYBE_FINISHED_WITHOUT_MARK;
     if (res != SZ_OK) {
         ostringstream str;
         str << "error decompressing dicsize: " << state.prop.dicSize
@@ -157,6 +162,9 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         return -1;
     }
     if (inProcessed == 0 && outProcessed == 0) {
+        if (avail_in == 0 && status == LZMA_STATUS_NEEDS_MORE_INPUT) {
+            return 0;
+        }
         if (p->m_size != -1 || status != LZMA_STATUS_FINISHED_WITH_MARK) {
             p->m_error = "unexpected end";
             p->m_status = Error;
-- 
2.43.0


From 9938af50ca20316bad25fd2df4f6ab8810de35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:58 +0000
Subject: [PATCH 26/29] fix: SdfInputStream missed a delimiter that was split
 over two reads

---
 lib/sdfinputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 015ccfb..0cc4bcf 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -145,6 +145,12 @@ SdfInputStream::nextEntry() {
                 break;
             }
             total += nread;
+            if (m_input->status() == Ok) {
+                // the delimiter may start in this piece and end in the next
+                const int32_t overlap = m_searcher.queryLength() - 1;
+                if (m_input->reset(m_input->position() - overlap) < 0) break;
+                total -= overlap;
+            }
         }    
     }    
     if (m_input->status() == Error) {
-- 
2.43.0


From 3bcd901831a6ebee7801f9359b4d7b6702892660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:25 +0000
Subject: [PATCH 27/29] fix: dos2unixtime used the result of localtime, which
 all threads share

---
 lib/dostime.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..f667bc2 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -20,6 +20,7 @@
 #include "dostime.h"
 
 #include <stddef.h>
+#include <string.h>
 
 
 /*
@@ -34,18 +35,18 @@
  * min<<5       (min is tm_min, 0-59)
  * sec>>1       (sec is tm_sec, 0-59, that's right, we throw away the LSB)
  *
- * DOS uses local time, so the localtime() call is used to turn the time_t
- * into a struct tm.
+ * DOS uses local time, so mktime() is used to turn the struct tm into a
+ * time_t.
  */
 
 time_t
 dos2unixtime (unsigned long dostime)
 {
   struct tm ltime;
-  time_t now = time (NULL);
 
-  /* Call localtime to initialize timezone in TIME.  */
-  ltime = *localtime (&now);
+  /* mktime initializes the time zone; the result of localtime would be shared
+     with all other threads */
+  memset (&ltime, 0, sizeof (ltime));
 
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
-- 
2.43.0


From 6848feed74bf4f07539e49842e20433f54048d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:14 +0000
Subject: [PATCH 28/29] fix: ListingInProgress: archives nested ten deep wrote
 past the stack, nesting was followed by recursion

---
 lib/listinginprogress.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..d70bb84 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -28,6 +28,8 @@ using namespace Strigi;
 using namespace std;
 
 namespace {
+/** The number of archives inside archives that are opened. **/
+const int maxdepth = 64;
 /**
  * Add the entry @p se to the cache.
  * The filename of @p se contains the complete path.
@@ -199,23 +201,28 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
-    }
-    StackEntry* e = &stack[depth];
-    StackEntry* ce = &stack[depth+1];
-    if (e->p) {
+    StackEntry* e;
+    StackEntry* ce;
+    for (;;) {
+        if (stack.size() < (size_t)(depth+2)) {
+            stack.resize(depth+2);
+        }
+        e = &stack[depth];
+        ce = &stack[depth+1];
+        if (!e->p) break;
         // create a child entry
         ce->entry = new ArchiveEntryCache::SubEntry();
         ce->entry->entry = e->p->entryInfo();
-        ce->p = subStreamProvider(subs, e->p->currentEntry(), ce->streams);
-        if (ce->p) {
-            // the child has substreams too
-            ce->entry->entry.type
-                = (EntryInfo::Type)(ce->entry->entry.type|EntryInfo::Dir);
-            return nextEntry(depth+1);
-        }
-    } else if (depth--) {
+        // an archive that is nested too deeply is taken for a file
+        ce->p = (depth < maxdepth) ?subStreamProvider(subs,
+            e->p->currentEntry(), ce->streams) :0;
+        if (!ce->p) break;
+        // the child has substreams too
+        ce->entry->entry.type
+            = (EntryInfo::Type)(ce->entry->entry.type|EntryInfo::Dir);
+        depth++;
+    }
+    if (!e->p && depth--) {
         ce = e;
         e = &stack[depth];
     }
-- 
2.43.0


From 27052972cd325963ecdafbe0bc095cb9bfb56d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:28 +0000
Subject: [PATCH 29/29] fix: OleInputStream: block positions were used
 unchecked, the entry was deleted twice, errors were taken for the end

---
 lib/oleinputstream.cpp | 143 ++++++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 66 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..7f4c61d 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -53,9 +53,17 @@ public:
     void readEntryInfo();
     int32_t nextBlock(int32_t);
     int32_t nextSmallBlock(int32_t);
-    const char* getCurrentSmallBlock();
+    int64_t currentSmallBlockPosition() const;
     InputStream* nextEntry();
-    bool readInt32(int32_t pos, int32_t& val);
+    bool readInt32(int64_t pos, int32_t& val);
+    /** The position of the block with number @p block. **/
+    static int64_t blockPosition(int32_t block) {
+        return 512 * ((int64_t)block + 1);
+    }
+    /** True if there are @p n bytes at position @p pos. **/
+    bool available(int64_t pos, int32_t n) const {
+        return pos >= 0 && n <= size && pos <= size - n;
+    }
 };
 
 namespace {
@@ -66,11 +74,9 @@ public:
     int32_t blockoffset;
     int32_t blocksize;
 
-    OleEntryStream(OleInputStream::Private* f) :parent(f), blockoffset(0) {
+    OleEntryStream(OleInputStream::Private* f) :parent(f), done(0),
+            blockoffset(0), blocksize(512) {
         setMinBufSize(512);
-        done = 0;
-        blockoffset = 0;
-        m_size = parent->currentStreamSize;
     }
     void reset() {
         resetBuffer();
@@ -109,25 +115,15 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
     if (n > avail) {
         n = avail;
     }
-    const char* d;
-    if (blocksize == 64) {
-        d = parent->getCurrentSmallBlock();
-        if (d == 0) {
-            m_status = Error;
-            fprintf(stderr, "error in small blocks\n");
-	    return -1;
-        }
-    } else {
-        d = parent->data+(1+parent->currentDataBlock)*512;
-    }
-    if (d < parent->data || parent->data + parent->size < d + n) {
+    int64_t pos = (blocksize == 64) ?parent->currentSmallBlockPosition()
+        :OleInputStream::Private::blockPosition(parent->currentDataBlock);
+    if (pos >= 0) pos += blockoffset;
+    if (!parent->available(pos, n)) {
         m_status = Error;
         m_error = "Invalid OLE stream.";
-        cerr << "not 0 < " << d-parent->data << " < " << m_size << " "
-            << blocksize << endl;
         return -1;
     }
-    memcpy(start, d+blockoffset, n);
+    memcpy(start, parent->data+pos, n);
     done += n;
     blockoffset += n;
     if (blockoffset == blocksize) {
@@ -141,8 +137,8 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         blockoffset = 0;
         if (parent->currentDataBlock < 0) {
             if (parent->currentDataBlock != -2 || done != m_size) {
-                fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid chain of blocks in OLE stream.";
                 n = -1;
             }
         }
@@ -154,8 +150,8 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
     p(new Private(this, input)) {
 }
 bool
-OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+OleInputStream::Private::readInt32(int64_t offset, int32_t& val) {
+    if (!available(offset, 4)) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
@@ -164,8 +160,9 @@ OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
     return true;
 }
 OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
-        :entrystream(new OleEntryStream(this)), stream(s) {
-    currentTableBlock = -1;
+        :data(0), size(0), maxindex(-1), maxsindex(0), currentTableBlock(-1),
+        currentTableIndex(0), currentDataBlock(-1), currentStreamSize(0),
+        entrystream(new OleEntryStream(this)), stream(s) {
     // read start
     size = input->read(data, 512, 512);
     if (size != 512) {
@@ -173,41 +170,41 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         stream->m_error = "File is too small.";
         return;
     }
-    input->reset(0);
 
     int32_t nBat = readLittleEndianInt32(data+0x2c);
     int32_t ptOffset = readLittleEndianInt32(data+0x30);
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    if (!checkHeader(data, size) || nBat < 0 || nXBat < 0
+            || nBat > 128*(int64_t)nXBat+109) {
+        input->reset(0);
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
     }
     int32_t max = 0;
-    batIndex.reserve(nBat);
-    data += 76;
     for (int i = 0; i < ::min(109, nBat); ++i) {
-        int32_t p;
-        if (!readInt32(4*i, p)) { return; }
+        int32_t p = readLittleEndianInt32(data + 76 + 4*i);
         batIndex.push_back(p);
         if (p > max) max = p;
     }
+    input->reset(0);
     if (ptOffset > max) max = ptOffset;
-    if (128*(nBat-1) > max) max = 128*(nBat-1);
+    int64_t needed = max;
+    if (128*((int64_t)nBat-1) > needed) needed = 128*((int64_t)nBat-1);
 
-    int32_t toread = (max+2)*512;
-    if (input->size() >= 0 && input->size() < toread) {
+    needed = (needed+2)*512;
+    if ((input->size() >= 0 && input->size() < needed)
+            || input->size() > 0x7fffffff) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
         return;
     }
-    toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
+    int32_t toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
     size = input->read(data, toread, toread);
-    input->reset(0);
-    if (size != input->size()) {
+    if (size < 512 || size != input->size() || input->reset(0) != 0) {
+        size = 0;
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
@@ -215,16 +212,23 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     }
     maxindex = size/512-2;
 
+    // each table takes a block of the file
+    if (nBat > maxindex + 1 || nXBat > maxindex + 1) {
+        stream->m_status = Error;
+        stream->m_error = "Invalid OLE file.";
+        return;
+    }
+
     // read any remaining BAT entries from XBAT blocks
-    xBatOffset = 512 + 512 * xBatOffset;
+    int64_t xBatPosition = blockPosition(xBatOffset);
     for (int j = 0; j < nXBat; ++j) {
         for (int i = 0; i<127 && (int)batIndex.size() < nBat; ++i) {
             int32_t p;
-            if (!readInt32(4*i + xBatOffset, p)) { return; }
+            if (!readInt32(4*i + xBatPosition, p)) { return; }
             batIndex.push_back(p);
         }
-        if (!readInt32(508 + xBatOffset, xBatOffset)) { return; }
-        xBatOffset = 512 + 512 * xBatOffset;
+        if (!readInt32(508 + xBatPosition, xBatOffset)) { return; }
+        xBatPosition = blockPosition(xBatOffset);
     }
 
     // print all bat blocks
@@ -254,8 +258,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     sbatbIndex.reserve(sbatIndex.size()*16);
     // read the info for the root entry
-    currentDataBlock = (1+ptOffset)*512 + 0x74;
-    if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
+    if (!readInt32(blockPosition(ptOffset) + 0x74, currentDataBlock)) { return; }
     while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
@@ -266,6 +269,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentTableIndex = 0;
 }
 OleInputStream::~OleInputStream() {
+    // the current entry belongs to p
+    m_entrystream = 0;
     delete p;
 }
 OleInputStream::Private::~Private() {
@@ -279,15 +284,12 @@ OleInputStream::Private::nextBlock(int32_t in) {
         fprintf(stderr, "error 5: input block out of range %i\n", in);
         return -4;
     }
-    bid = batIndex[bid]+1;
-    int32_t next = in%128*4;
-    next += 512*bid;
-    if (next < 0 || size - 4 < next) {
-        fprintf(stderr, "error 3: output block out of range %i\n", next);
+    int64_t pos = blockPosition(batIndex[bid]) + in%128*4;
+    if (!available(pos, 4)) {
+        fprintf(stderr, "error 3: block of table out of range\n");
         return -4;
     }
-    bid = next;
-    next = readLittleEndianInt32(data+bid);
+    int32_t next = readLittleEndianInt32(data+pos);
     bool error = next < -2 || next == -1 || next > maxindex
         || usedBlocks.count(next) > 0;
     if (error) {
@@ -307,14 +309,12 @@ OleInputStream::Private::nextSmallBlock(int32_t in) {
         fprintf(stderr, "error 6: input block out of range %i\n", in);
         return -4;
     }
-    bid = sbatIndex[bid]+1;
-    int32_t next = in%128*4;
-    next += 512*bid;
-    if (next < 0 || size - 4 < next) {
-        fprintf(stderr, "error 1: output block out of range %i\n", next);
+    int64_t pos = blockPosition(sbatIndex[bid]) + in%128*4;
+    if (!available(pos, 4)) {
+        fprintf(stderr, "error 1: block of table out of range\n");
         return -4;
     }
-    next = readLittleEndianInt32(data+next);
+    int32_t next = readLittleEndianInt32(data+pos);
     bool error = next < -2 || next == -1 || next > maxsindex
         || usedSBlocks.count(next) > 0;
     if (error) {
@@ -326,20 +326,25 @@ OleInputStream::Private::nextSmallBlock(int32_t in) {
     }
     return next;
 }
-const char*
-OleInputStream::Private::getCurrentSmallBlock() {
-    const char* d = data;
+int64_t
+OleInputStream::Private::currentSmallBlockPosition() const {
     // each block of 512 has 8 blocks of 64
     int32_t i = currentDataBlock/8;
     if (i < 0 || i >= (int32_t)sbatbIndex.size()) {
-        return 0;
+        return -1;
     }
-    i = 512*(1+sbatbIndex[i]) + (currentDataBlock%8)*64;
-    return (i > size-64) ?0 :d+i;
+    int64_t pos = blockPosition(sbatbIndex[i]) + (currentDataBlock%8)*64;
+    return available(pos, 64) ?pos :-1;
 }
 void
 OleInputStream::Private::readEntryInfo() {
-    const char* d = data + (1+currentTableBlock)*512 + 128*currentTableIndex;
+    int64_t pos = blockPosition(currentTableBlock) + 128*currentTableIndex;
+    if (!available(pos, 128)) {
+        stream->m_status = Error;
+        stream->m_error = "Invalid OLE table.";
+        return;
+    }
+    const char* d = data + pos;
     char entryType = d[0x42];
     if (entryType != 2) {
         currentDataBlock = -1;
@@ -378,8 +383,9 @@ OleInputStream::Private::readEntryInfo() {
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status != Ok) return 0;
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -389,11 +395,16 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Invalid chain of blocks in OLE table.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
         }
         readEntryInfo();
+        if (stream->m_status != Ok) return 0;
     } while (currentDataBlock < 0);
     //printEntry(data+(currentTableBlock+1)*512+128*currentTableIndex);
 
-- 
2.43.0

