From 2783c3ee1b7edfb6cf1aa278f896fbcf1b80bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 01/94] fix: Buffer::Shrink keeps the indexes in step with the
 moved data and keeps the prefix region

---
 kanon/buffer/buffer.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..cd4c1de 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -19,18 +19,19 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
-  if (read_index_ != BUFFER_PREFIX_SIZE) {
+  auto readable = GetReadableSize();
+
+  if (readable == 0) {
+    read_index_ = write_index_ = BUFFER_PREFIX_SIZE;
+  } else if (read_index_ > BUFFER_PREFIX_SIZE) {
     std::copy(offset(read_index_), offset(write_index_),
               offset(BUFFER_PREFIX_SIZE));
+    read_index_ = BUFFER_PREFIX_SIZE;
+    write_index_ = read_index_ + readable;
   }
 
-#ifndef NDEBUG
-  if (read_index_ == write_index_) {
-    assert(read_index_ == BUFFER_PREFIX_SIZE);
-  }
-#endif
-
-  data_.Shrink(GetReadableSize() + n);
+  // The prefix region must be kept
+  data_.Shrink(write_index_ + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From 8124a98703313625c9855b9a2ec000e43cf3162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 02/94] fix: Buffer::ReserveWriteSpace expands the buffer when
 part of the prefix region is in use

---
 kanon/buffer/buffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index cd4c1de..384a6a7 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -53,7 +53,9 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  // (The prefix size is added to len since the prependable size may be less
+  // than it when user has prepended something)
+  if (len + BUFFER_PREFIX_SIZE > GetPrependableSize() + GetWritableSize()) {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From a58a710479cfd040b63011ad1aebfad13f0e0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 03/94] fix: Buffer::Shrink keeps the whole prefix region when
 data was prepended into it

---
 kanon/buffer/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 384a6a7..5aefc83 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -31,7 +31,7 @@ void Buffer::Shrink(size_type n)
   }
 
   // The prefix region must be kept
-  data_.Shrink(write_index_ + n);
+  data_.Shrink(BUFFER_PREFIX_SIZE + readable + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From c0969cb993227df54d82697d3a52d342cf742b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 04/94] fix: StringView::find compares all bytes of the
 searched view, also after a NUL

---
 kanon/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 05b0b79..f3fade0 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -237,7 +237,7 @@ class StringView {
     if (v.size() <= len_) {
       size_type n = len_ - v.size() + 1;
       for (size_type i = pos; i < n; ++i) {
-        if (!::strncmp(data_ + i, v.data(), v.size())) {
+        if (!::memcmp(data_ + i, v.data(), v.size())) {
           return i;
         }
       }
-- 
2.43.0


From 8f390f7d1061e576d6966696b54c47302785ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 05/94] fix: StringView::rfind does not read an empty view

---
 kanon/string/string_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index f3fade0..ada2d2b 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -263,7 +263,7 @@ class StringView {
    */
   size_type rfind(StringView v, size_type pos = npos) const KANON_NOEXCEPT
   {
-    if (!v.empty()) {
+    if (!v.empty() && len_ != 0) {
       auto len = std::min(len_ - 1, pos);
 
       // Avoid --len == size_type(-1)
@@ -281,6 +281,7 @@ class StringView {
 
   size_type rfind(char c, size_type pos = npos) const KANON_NOEXCEPT
   {
+    if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto len = std::min(len_ - 1, pos);
     for (;; --len) {
       if (data_[len] == c) {
-- 
2.43.0


From e3f4f65b5e6821a4cbf3176dc068fc528bd2fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 06/94] fix: StringView::find_last_of terminates, checks the
 first character and returns the index found

---
 kanon/string/string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index ada2d2b..8979d5e 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -360,7 +360,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0;) {
+    for (;; --i) {
       if (charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -373,8 +373,8 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return pos;
+    for (;; --i) {
+      if (data_[i] == c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From 187c3bc076869f9285ed1c4dd555f73399715378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 07/94] fix: StringView::find_last_not_of checks the first
 character and looks for a character other than the given one

---
 kanon/string/string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 8979d5e..4af6952 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -404,7 +404,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
+    for (;; --i) {
       if (!charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -417,8 +417,8 @@ class StringView {
     if (KANON_UNLIKELY((len_ == 0))) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return i;
+    for (;; --i) {
+      if (data_[i] != c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From cf220d9b2349c56929d4c4b45038af54ffe69e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 08/94] fix: StringView::copy does not read past the end of the
 view

---
 kanon/string/string_view.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 4af6952..16c5383 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -205,6 +205,7 @@ class StringView {
       throw std::out_of_range{"Given position over length of StringView"};
     }
 
+    count = std::min(count, len_ - pos);
     ::memcpy(dst, data_ + pos, count);
     return count;
   }
-- 
2.43.0


From cc447cecacdab53fccae5c39f0fc5f6411fbcde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 09/94] fix: StringView::caseCompare(char) ignores the case of
 the given character and does not read an empty view

---
 kanon/string/string_view.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 16c5383..44d8a6c 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -443,14 +443,16 @@ class StringView {
 
   int caseCompare(char c) const KANON_NOEXCEPT
   {
+    if (len_ < 1) return -1;
+
     auto data_0 = ::toupper(data_[0]);
     auto _c = ::toupper(c);
 
-    if (len_ < 1 || data_0 < _c) return -1;
+    if (data_0 < _c) return -1;
 
     if (data_0 > _c) return 1;
 
-    return (data_0 == c && len_ == 1) ? 0 : 1;
+    return (len_ == 1) ? 0 : 1;
   }
 
   // lexicographic compare
-- 
2.43.0


From dca7c0324a31a886b32e3ef95a6e5928676aab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 10/94] fix: StringView::compare(char) orders bytes like
 compare(StringView) and does not read an empty view

---
 kanon/string/string_view.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 44d8a6c..70073c1 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -472,11 +472,17 @@ class StringView {
 
   int compare(char c) const KANON_NOEXCEPT
   {
-    if (len_ < 1 || data_[0] < c) return -1;
+    if (len_ < 1) return -1;
+
+    // Bytes are compared as unsigned char like memcmp()
+    auto data_0 = static_cast<unsigned char>(data_[0]);
+    auto _c = static_cast<unsigned char>(c);
+
+    if (data_0 < _c) return -1;
 
-    if (data_[0] > c) return 1;
+    if (data_0 > _c) return 1;
 
-    return (data_[0] == c && len_ == 1) ? 0 : 1;
+    return (len_ == 1) ? 0 : 1;
   }
 
   KANON_CORE_API std::vector<std::string> split(StringView spliter = " ") const;
-- 
2.43.0


From 2db9f606d2bffb88d4fe50f8262a22833f4adc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 11/94] fix: a connection keeps the message when the socket
 buffer is full (EAGAIN) instead of dropping it

---
 kanon/linux/net/connection/connection_base.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..fa30445 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -257,9 +257,12 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      if (errno != EAGAIN) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+      // Nothing is written, the entire message is cached
+      n = 0;
     }
   }
 
-- 
2.43.0


From 0323166e9533211583a8398291def8d044b2315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 12/94] fix: a connection waits for the socket to become
 writable when no byte of a sent buffer was written

---
 kanon/linux/net/connection/connection_base.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index fa30445..ee35f7c 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -64,7 +64,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
       LOG_SYSERROR_KANON << "write unexpected error occurred";
     }
 
-    if (n > 0) {
+    if (n > 0 || saved_errno == EAGAIN) {
       LOG_TRACE_KANON << "Write length = " << n;
       output_buffer_.AdvanceRead(n);
       if (output_buffer_.HasReadable()) {
-- 
2.43.0


From 457fdb300aaf13815d1bcabcb108afd71e955082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 13/94] fix: a sent chunk list is queued behind the cached
 messages and its unwritten rest is written later

---
 .../linux/net/connection/connection_base.inl  | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index ee35f7c..8d8acd9 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -111,6 +111,31 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
+  if (state_ != kConnected) {
+    LOG_WARN_KANON << "This connection[" << name_
+                   << "] is not connected, don't send any message";
+    return;
+  }
+
+  // The messages cached before must be sent first
+  if (output_buffer_.HasReadable() && &buffer != &output_buffer_) {
+    auto readable_len = output_buffer_.GetReadableSize();
+    auto total_len = readable_len + buffer.GetReadableSize();
+
+    if (high_water_mark_callback_ && total_len >= high_water_mark_ &&
+        readable_len < high_water_mark_)
+    {
+      loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                   this->shared_from_this(), total_len));
+    }
+
+    output_buffer_.AppendChunkList(&buffer);
+    if (!channel_->IsWriting()) {
+      channel_->EnableWriting();
+    }
+    return;
+  }
+
   int saved_errno = 0;
   auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
 
@@ -118,28 +143,23 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
     LOG_SYSERROR_KANON << "write unexpected error occurred";
   }
 
-  if (write_n > 0) {
+  if (write_n > 0 || saved_errno == EAGAIN) {
     LOG_DEBUG_KANON << "Write " << write_n << " bytes";
     buffer.AdvanceRead(write_n);
 
     if (buffer.HasReadable()) {
       if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
+          buffer.GetReadableSize() >= high_water_mark_)
       {
         loop_->QueueToLoop(std::bind(high_water_mark_callback_,
                                      this->shared_from_this(),
-                                     high_water_mark_));
+                                     buffer.GetReadableSize()));
       }
 
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
       output_buffer_.swap(buffer);
-#endif
+      if (!channel_->IsWriting()) {
+        channel_->EnableWriting();
+      }
     } else {
       LOG_DEBUG_KANON << "Write complete";
       if (write_complete_callback_) {
-- 
2.43.0


From c6592e209c3fc5c282aa4be6dbf0d27f9ec842a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 14/94] fix: the write side is shut down once the cached
 messages are written

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..fbd81e0 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -254,7 +254,7 @@ void ConnectionBase<D>::HandleLtWrite()
       // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
       // to here
       if (state_ == kDisconnecting) {
-        ShutdownWrite();
+        socket_->ShutdownWrite();
       }
     }
   }
-- 
2.43.0


From 3e6c2618b4464e478760ad3ecd633251aad598c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 15/94] fix: ShutdownWrite waits for exactly the cached
 messages, also in edge-trigger mode

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index fbd81e0..89fc462 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -376,7 +376,7 @@ void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
       // If channel is writing state, we need write all message to
       // the buffer in kernel space, in case peer half-close can
       // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
+      if (!output_buffer_.HasReadable()) {
         socket_->ShutdownWrite();
       }
     });
-- 
2.43.0


From 7d624a6c29d4eb9735302365dfa17a9222fc1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 16/94] fix: ShutdownWrite from another thread keeps the
 connection alive until it runs

---
 kanon/net/connection/connection_base.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 89fc462..c30cc9e 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -371,8 +371,9 @@ void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
   if (state_ == kConnected) {
     state_ = kDisconnecting;
 
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
+    // The functor may be called after the user drops the connection
+    auto guard = this->shared_from_this();
+    loop_->RunInLoop([this, guard]() {
       // If channel is writing state, we need write all message to
       // the buffer in kernel space, in case peer half-close can
       // also receive message
-- 
2.43.0


From 7da264d165447f51742cbe52e6a8bbb5fc9241b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 17/94] fix: the edge-trigger write loop ends when everything
 is written or the socket is full

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index c30cc9e..af02460 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -303,7 +303,7 @@ void ConnectionBase<D>::HandleEtWrite()
 
     output_buffer_.AdvanceRead(writen);
 
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
+    if (!output_buffer_.HasReadable() || saved_errno) {
       break;
     }
   }
-- 
2.43.0


From 94e67b969777ef7202c71dd692e611b8f49a89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 18/94] fix: the edge-trigger read loop ends when the socket
 fails

---
 kanon/net/connection/connection_base.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index af02460..5500fd1 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -162,9 +162,8 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
       if (saved_errno != EAGAIN) {
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
-- 
2.43.0


From 792c72198fda84b1200d114451659cbc932feb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 19/94] fix: the completion of a write does not stop the write
 of messages cached since

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 5500fd1..7637fc2 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -265,7 +265,7 @@ void ConnectionBase<D>::CallWriteCompleteCallback()
   if (write_complete_callback_(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
     // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
-- 
2.43.0


From 5595a4f6c048356923bffdd038139d8c03afd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 20/94] fix: closing a connection twice is no error

---
 kanon/net/connection/connection_base.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 7637fc2..d79de4e 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -341,6 +341,11 @@ template <typename D>
 void ConnectionBase<D>::HandleClose()
 {
   loop_->AssertInThread();
+  // Both the read/close event and ForceClose() may close the connection
+  if (state_ == kDisconnected) {
+    return;
+  }
+
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
   assert(state_ == kConnected || state_ == kDisconnecting);
-- 
2.43.0


From 693fcd98c1a0e1cf4454b36ef8ff8ba22bac9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 21/94] fix: a connection that is disconnecting can be
 destroyed

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index d79de4e..4afba30 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -77,7 +77,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
-- 
2.43.0


From de335ddae6c154b2ad65994d12376e0c88a2d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 22/94] fix: a write event whose interest was withdrawn by the
 read callback is ignored

---
 kanon/linux/net/connection/connection_base.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 8d8acd9..5d26dde 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -22,8 +22,8 @@ void ConnectionBase<D>::HandleWrite()
   // 1. HandleClose() call DisableAll()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
+  // 3. A read callback has written the rest and disabled writing
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
     LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
     return;
   }
-- 
2.43.0


From 4410836da370d11cff29dbe768e45d9671f574f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 23/94] fix: a message sent from another thread before
 ShutdownWrite is not dropped

---
 kanon/linux/net/connection/connection_base.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 5d26dde..677b82a 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -41,7 +41,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
   LOG_TRACE_KANON << "Connection: [" << name_
                   << "], fd = " << channel_->GetFd();
 
-  if (state_ != kConnected) {
+  if (state_ != kConnected && state_ != kDisconnecting) {
     LOG_WARN_KANON << "This connection[" << name_
                    << "] is not connected, don't send any message";
     return;
@@ -111,7 +111,7 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
-  if (state_ != kConnected) {
+  if (state_ != kConnected && state_ != kDisconnecting) {
     LOG_WARN_KANON << "This connection[" << name_
                    << "] is not connected, don't send any message";
     return;
@@ -185,7 +185,7 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
   // Although Send() has checked state_ is kConnected
   // But connection also can be closed in the phase 2
   // when this is called in phase 3
-  if (state_ != kConnected) {
+  if (state_ != kConnected && state_ != kDisconnecting) {
     LOG_WARN_KANON << "This connection [" << name_
                    << "] is not connected, don't send any message";
     return;
-- 
2.43.0


From 0d58238d2870712414ebdb838e78bf400312db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 24/94] fix: no message is delivered after the connection was
 reported as down

---
 kanon/linux/net/connection/connection_base.inl | 5 +++++
 kanon/net/connection/connection_base.cc        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 677b82a..098a8ef 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -6,6 +6,11 @@ template <typename D>
 void ConnectionBase<D>::HandleRead(TimeStamp recv_time)
 {
   loop_->AssertInThread();
+
+  // The close event in the same batch has closed the connection
+  if (state_ == kDisconnected) {
+    return;
+  }
   if (loop_->IsEdgeTriggerMode()) {
     HandleEtRead(recv_time);
   } else {
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 4afba30..9388118 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -183,6 +183,11 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
       LOG_WARN_KANON << "If user want to process message from peer, should set "
                         "proper message_callback_";
     }
+
+    // The callback has closed the connection
+    if (state_ == kDisconnected) {
+      break;
+    }
   }
 }
 
-- 
2.43.0


From a2f4a139e01061f9cdade7c16377a40a9f0a41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 25/94] fix: a channel without interest leaves the epoll table
 (EPOLLHUP/EPOLLERR on it aborted)

---
 kanon/linux/net/epoller.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..9d68a57 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -101,9 +101,15 @@ void Epoller::UpdateChannel(Channel *ch)
 
   int index = ch->GetIndex();
 
+  // epoll(7) reports EPOLLERR and EPOLLHUP for every registered fd, so a
+  // channel without interest must not stay in the table
   if (index == kNew) {
+    if (ch->IsNoneEvent()) return;
     UpdateEpollEvent(EPOLL_CTL_ADD, ch);
     ch->SetIndex(kAdded);
+  } else if (ch->IsNoneEvent()) {
+    UpdateEpollEvent(EPOLL_CTL_DEL, ch);
+    ch->SetIndex(kNew);
   } else { // ch->GetIndex() = kAdded
     UpdateEpollEvent(EPOLL_CTL_MOD, ch);
   }
-- 
2.43.0


From 535ad4515a818aa7f1dc526e227301fa81e4ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 26/94] fix: poll(2): a channel whose events were disabled can
 be enabled again

---
 kanon/linux/net/poller.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..ee2ab6f 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -94,11 +94,10 @@ void Poller::UpdateChannel(Channel *ch)
     assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
+    assert(now_pollfd.fd == ch->GetFd() || now_pollfd.fd == -ch->GetFd() - 1);
 
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    // ignored by poll(2) as long as there is no interest
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
-- 
2.43.0


From e5f85b2d0852b873a8d044a265f183402f2cc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 27/94] fix: poll(2): a removed channel can be registered again

---
 kanon/linux/net/poller.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index ee2ab6f..cc47edd 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -148,6 +148,8 @@ void Poller::RemoveChannel(Channel *ch)
     }
 
     channels_map_.erase(it);
+    // then we can add it again
+    ch->SetIndex(-1);
   }
 }
 
-- 
2.43.0


From 7991a085a00efe9118c5dec1ff8c3d19826c5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 28/94] fix: poll(2): an interrupted call is not an error

---
 kanon/linux/net/poller.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index cc47edd..a012063 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -26,6 +26,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
 
   auto ret = ::poll(pollfds_.data(), static_cast<nfds_t>(pollfds_.size()), ms);
 
+  int saved_errno = errno;
   TimeStamp now{TimeStamp::Now()};
 
   if (ret > 0) {
@@ -54,7 +55,8 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    if (saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
-- 
2.43.0


From 4c35f29cc100d61b40df71272d11afdcf76bf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 29/94] fix: poll(2): a channel registered without interest is
 ignored

---
 kanon/linux/net/poller.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index a012063..cec807b 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -77,7 +77,7 @@ void Poller::UpdateChannel(Channel *ch)
     // because new fd is more than or equal all fd in channels_map_
     channels_map_.emplace_hint(channels_map_.end(), ch->GetFd(), ch);
     struct pollfd new_pollfd;
-    new_pollfd.fd = ch->GetFd();
+    new_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
     new_pollfd.events = static_cast<short>(ch->GetEvents());
     new_pollfd.revents = 0;
 
-- 
2.43.0


From 929708c0e6af34bee3c5ac0db97dcfaf1f95bc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 30/94] fix: the threads not created by kanon::Thread all had
 the loop thread id 0

---
 kanon/net/event_loop.cc | 8 ++------
 kanon/net/event_loop.h  | 4 +++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..9741809 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -87,11 +87,7 @@ EventLoop::EventLoop()
 }
 
 EventLoop::EventLoop(bool is_poller)
-#if KANON___THREAD_DEFINED
-  : owner_thread_id_{(PId)CurrentThread::t_tid}
-#else
-  : owner_thread_id_{(PId)CurrentThread::GetTid()}
-#endif
+  : owner_thread_id_{(PId)CurrentThread::tid()}
   , looping_{false}
   , quit_{false}
   , calling_functors_{false}
@@ -363,7 +359,7 @@ bool EventLoop::IsEdgeTriggerMode() const KANON_NOEXCEPT
 #if !KANON___THREAD_DEFINED
 bool EventLoop::IsLoopInThread() KANON_NOEXCEPT
 {
-  return CurrentThread::GetTid() == owner_thread_id_;
+  return CurrentThread::tid() == owner_thread_id_;
 }
 #endif
 
diff --git a/kanon/net/event_loop.h b/kanon/net/event_loop.h
index d9e6b27..466c563 100644
--- a/kanon/net/event_loop.h
+++ b/kanon/net/event_loop.h
@@ -192,7 +192,9 @@ class EventLoop : noncopyable {
 #if KANON___THREAD_DEFINED
   KANON_INLINE bool IsLoopInThread() KANON_NOEXCEPT
   {
-    return CurrentThread::t_tid == owner_thread_id_;
+    // t_tid is 0 in a thread that is not created by kanon::Thread
+    // until it is cached by tid()
+    return CurrentThread::tid() == owner_thread_id_;
   }
 #else
   KANON_NET_API bool IsLoopInThread() KANON_NOEXCEPT;
-- 
2.43.0


From a4a016d897b143b85baff1c749e0719e87ab05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 31/94] fix: a functor queued by the loop thread before
 StartLoop() waited for an unrelated event

---
 kanon/net/event_loop.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 9741809..47f8a7d 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -221,7 +221,9 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
   // ConnectionCallback) then WriteCompleteCallback continue write and register
   // it if not complete, but this is in the phase3, if we don't Wakeup(), the
   // next loop must be blocked. \see example/file_transfer/client.cc
-  if (!IsLoopInThread() || calling_functors_) {
+  //
+  // If the loop is not running yet, phase 1 is the first, should also Wakeup()
+  if (!IsLoopInThread() || calling_functors_ || !looping_) {
     Wakeup();
   }
 }
-- 
2.43.0


From 3f258ac88237b450114626416e35486434b171a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 32/94] fix: the eventfd of an event loop was never closed

---
 kanon/net/event_loop.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 47f8a7d..aed16e0 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -144,6 +144,9 @@ EventLoop::~EventLoop()
   //     BUT! The assertion will make effect at first, and the exception
   //     information is messing.
   // assert(!looping_);
+#ifdef KANON_ON_UNIX
+  ::close(ev_channel_->GetFd());
+#endif
 }
 
 void EventLoop::StartLoop()
-- 
2.43.0


From fe0fa2760e09ae7abb6c049dd60e89b352c9a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 33/94] fix: AddTimer() called in the other thread read a timer
 that may have been deleted

---
 kanon/linux/net/timer/timer_queue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..fea3be1 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -134,6 +134,9 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // In the other thread, the timer may be expired(and be deleted)
+  // before RunInLoop() returned
+  TimerId id(timer);
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
@@ -144,7 +147,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
-- 
2.43.0


From 827e9c53a1e37dc9abf6ac2297cfa9862273a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 34/94] fix: a self-cancel was lost when the second changed
 (the hash was seeded with time(NULL))

---
 kanon/linux/net/timer/timer_queue.cc |  4 ++--
 kanon/linux/net/timer/timer_queue.h  | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index fea3be1..dd34c74 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -164,7 +164,7 @@ void TimerQueue::CancelTimer(TimerId id)
     } else if (calling_timer_) {
       // Self-cancel
       // \see ProcessAllExpiredTimers()
-      canceling_timers_.emplace(id.timer_, id.seq_);
+      canceling_timers_.emplace(id.seq_);
     }
   });
 }
@@ -270,7 +270,7 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
       // If timer is repeat, we should restart it
       // but if it in such case as self-cancel,
       // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
+      if (canceling_timers_.find(timer->sequence()) ==
           canceling_timers_.end())
       {
         timer->restart(now);
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..4667e46 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -9,8 +9,6 @@
 #include "kanon/util/time_stamp.h"
 #include "kanon/net/channel.h"
 
-#include <third-party/xxHash/xxhash.h>
-
 namespace kanon {
 
 class TimerQueue : public ITimerQueuePlatform {
@@ -178,15 +176,7 @@ class TimerQueue : public ITimerQueuePlatform {
    * The all timers are not reset, and before the next phase of
    * calling callback will be cleared.
    */
-  struct TimerEntryHash {
-    KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
-    {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
-    }
-  };
-
-  std::unordered_set<TimerEntry, TimerEntryHash>
+  std::unordered_set<uint64_t>
       canceling_timers_; //!< Store the self-cancel timer to avoid reset
 };
 } // namespace kanon
-- 
2.43.0


From 4625e763e4295f9bbd502f2313f01694461c97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 35/94] fix: CancelTimer() of a timer that has expired read the
 deleted timer

---
 kanon/linux/net/timer/timer_queue.cc | 13 ++++++++++---
 kanon/linux/net/timer/timer_queue.h  |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index dd34c74..ee1b8af 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -157,10 +157,12 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
-    const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
+    // Don't dereference id.timer_ here, it may have been deleted
+    const auto active_timer_iter = active_timers_.find(id.seq_);
 
-    if (timers_.end() != active_timer_iter) {
-      timers_.erase(active_timer_iter);
+    if (active_timers_.end() != active_timer_iter) {
+      timers_.erase({active_timer_iter->second, id.seq_});
+      active_timers_.erase(active_timer_iter);
     } else if (calling_timer_) {
       // Self-cancel
       // \see ProcessAllExpiredTimers()
@@ -181,6 +183,7 @@ bool TimerQueue::Emplace(Timer *timer)
   }
 
   timers_.emplace(timer, timer->sequence());
+  active_timers_.emplace(timer->sequence(), timer);
   LOG_TRACE_KANON << "Now total timer count = " << timers_.size();
   return ret;
 }
@@ -255,6 +258,10 @@ auto TimerQueue::GetExpiredTimers(TimeStamp time) -> TimerVector
                  });
 
   timers_.erase(timers_.begin(), expired_end);
+  for (auto const &timer : expireds) {
+    active_timers_.erase(timer->sequence());
+  }
+
   LOG_DEBUG_KANON << "Expired time =  " << time.ToFormattedString(true);
   LOG_DEBUG_KANON << "Expired timer count = " << expireds.size();
 
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 4667e46..88d6365 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -4,6 +4,7 @@
 #include "kanon/net/timer/itimer_queue_platform.h"
 
 #include <set>
+#include <unordered_map>
 #include <unordered_set>
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
@@ -158,7 +159,8 @@ class TimerQueue : public ITimerQueuePlatform {
    *  more exact, but we need provide a predicate like
    *  std::pair<> to sort it, thus, just reuse std::pair<> :D)
    */
-  // std::set<ActiveTimer> active_timers_; //!< Detect a timer if is active
+  std::unordered_map<uint64_t, TimerPtr>
+      active_timers_; //!< Detect a timer if is active(sequence -> timer)
 
   /**
    * Self-cancel indicates user cancel a timer in
-- 
2.43.0


From 4961c135e0958daca2b4a931f40f688cd161ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 36/94] fix: the canceled timers were never deleted

---
 kanon/linux/net/timer/timer_queue.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index ee1b8af..f679640 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -161,8 +161,10 @@ void TimerQueue::CancelTimer(TimerId id)
     const auto active_timer_iter = active_timers_.find(id.seq_);
 
     if (active_timers_.end() != active_timer_iter) {
-      timers_.erase({active_timer_iter->second, id.seq_});
+      auto timer = active_timer_iter->second;
+      timers_.erase({timer, id.seq_});
       active_timers_.erase(active_timer_iter);
+      delete timer;
     } else if (calling_timer_) {
       // Self-cancel
       // \see ProcessAllExpiredTimers()
@@ -282,6 +284,8 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
       {
         timer->restart(now);
         Emplace(timer);
+      } else {
+        delete timer;
       }
     } else {
       delete timer;
-- 
2.43.0


From 2359ba54d0109bcd94034b035755ab3757219ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 37/94] fix: the callback of a timer was called after it was
 canceled by a timer which expired at the same time

---
 kanon/linux/net/timer/timer_queue.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index f679640..68b8d4f 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -215,6 +215,11 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the callback of a timer which expired also
+    if (canceling_timers_.find(timer->sequence()) != canceling_timers_.end()) {
+      continue;
+    }
+
     try {
       timer->run();
     }
-- 
2.43.0


From b406c403857be0e4c6e30a3feda7505df734c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 38/94] fix: the timerfd of a timer queue was never closed

---
 kanon/linux/net/timer/timer_queue.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 68b8d4f..c31a153 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -128,6 +128,8 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
-- 
2.43.0


From 60a3e53bdfe93cc8a50d8ce85782abd8cc9f0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 39/94] fix: canceling a default constructed TimerId canceled
 an arbitrary timer

---
 kanon/net/timer/timer_id.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..65b302d 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = UINT64_MAX;
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From 0d218cb77428d46046bef8ffa6138c346cbfb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 40/94] fix: timers far apart were ordered wrongly (the
 difference of the expirations overflowed)

---
 kanon/linux/net/timer/timer_queue.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 88d6365..1fa1992 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -79,12 +79,10 @@ class TimerQueue : public ITimerQueuePlatform {
     KANON_INLINE bool operator()(TimerEntry const &x,
                                  TimerEntry const &y) const KANON_NOEXCEPT
     {
-      auto res = (x.first->expiration().GetMicrosecondsSinceEpoch() -
-                  y.first->expiration().GetMicrosecondsSinceEpoch());
-      if (res == 0) {
+      if (x.first->expiration() == y.first->expiration()) {
         return x.second < y.second;
       }
-      return res < 0;
+      return x.first->expiration() < y.first->expiration();
     }
 #endif
   };
-- 
2.43.0


From cd7a2e6c0af7be07af06331c888dea2b6bd93ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 41/94] fix: the retry interval of a connector overflowed to 0
 after 30 retries

---
 kanon/net/connector.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..eb7570d 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -113,7 +113,9 @@ void Connector::Retry(FdType sockfd)
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    // Otherwise, it overflows to 0 at last and the retries become a busy loop
+    retry_interval_ =
+        std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
-- 
2.43.0


From 7b8878c5514dd15c9af4ef4b9dd8d233aa67b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 42/94] fix: the channel of a connector was destroyed by a
 functor that outlives the connector or destroyed the next channel

---
 kanon/linux/net/connector.cc | 2 +-
 kanon/net/connector.cc       | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index cab1787..5635b4b 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -77,12 +77,12 @@ void Connector::CompleteConnect(FdType sockfd)
   channel_ = kanon::make_unique<Channel>(loop_, sockfd);
 
   channel_->SetWriteCallback([this]() {
-    FdType sockfd = channel_->GetFd();
     // NOTICE:
     // OUT maybe occurs with ERR(and HUP).
     // Therefore, the error callback is called before this,
     // use state to distinguish them.
     if (state_ == State::kConnecting) {
+      FdType sockfd = channel_->GetFd();
       ResetChannel();
       int err = sock::GetSocketError(sockfd);
 
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index eb7570d..29664c9 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -131,7 +131,9 @@ void Connector::ResetChannel()
   // \warning
   // In event handle phase now if called in phase2
   // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  // The functor owns the channel: when it is called, this may be destroyed or
+  // have a new channel already.
+  std::shared_ptr<Channel> channel(std::move(channel_));
+  loop_->QueueToLoop([channel]() {
   });
 }
-- 
2.43.0


From 5a669a50b18d17c1f8e53382144c72ade5a6c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 43/94] fix: the descriptor of a connection that nobody takes
 was never closed

---
 kanon/net/tcp_client.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..582f086 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,10 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
-- 
2.43.0


From 7dafb72012c062d4319b071f88a7c972967f9074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 44/94] fix: the channel of a connection that outlived its
 client was never removed

---
 kanon/net/tcp_client.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 582f086..978b9e5 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -179,6 +179,10 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
 {
   auto cli = wp_cli.lock();
   if (!cli) {
+    // The channel must be removed from the poller, too
+    conn->GetLoop()->QueueToLoop([conn]() {
+      conn->ConnectionDestroyed();
+    });
     return;
   }
 
-- 
2.43.0


From 088fd855db1351bdb306196e7602259bdbb83372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 45/94] fix: StartRun() called twice before the loop ran
 started the server twice (and aborted)

---
 kanon/net/tcp_server.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..2afdce7 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -193,7 +193,7 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   // If the other thread also call this function,
   // may be call this more than once.
   // EventLoopPool::StartRun() can only be called once
-  if (!start_once_) {
+  if (!start_once_.exchange(true)) {
     // start IO loop
     loop_->RunInLoop([this]() {
       // Boot the loop pool in the binded loop
@@ -213,7 +213,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
-- 
2.43.0


From 0ccb1611a4998dd108ea2d7501cc1a776c5bef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 46/94] fix: the functors queued before Quit() were lost

---
 kanon/net/event_loop.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index aed16e0..f1a9611 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -172,6 +172,9 @@ void EventLoop::StartLoop()
     activeChannels.clear();
   }
 
+  // The functors queued before Quit() must not be lost
+  CallFunctors();
+
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
@@ -237,10 +240,6 @@ void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
 
 void EventLoop::CallFunctors()
 {
-  if (quit_) {
-    return;
-  }
-
   decltype(functors_) functors;
   {
     MutexGuard dummy{lock_};
-- 
2.43.0


From 4f494ea87b99de9c9536de3fb84b190f4c54b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 47/94] fix: the connections closed while the server is
 destroyed used the destroyed server

---
 kanon/net/tcp_server.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 2afdce7..2294ce4 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -141,7 +141,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                             << connections_.size();
           }
 
-          assert(n == 1);
+          // The dtor has queued ConnectionDestroyed()
+          if (n == 0) return;
 
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
@@ -172,8 +173,14 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
+  // The IO threads may close connections now
+  ConnectionMap connections;
+  {
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
     auto conn = conn_pair.second;
     conn_pair.second.reset();
 
@@ -182,6 +189,9 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
       conn->ConnectionDestroyed();
     });
   }
+
+  // The callbacks running in the IO threads use the members of this server
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
-- 
2.43.0


From dd051038fca46bae30c3821bf40bdaca6f9c327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 48/94] fix: ~EventLoopThread() told a loop to quit that may be
 destroyed, and did not join the thread of a loop that has quit

---
 kanon/net/event_loop_thread.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..f037384 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -16,10 +16,15 @@ EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
   // if Quit() is not called through pointer return from StartRun()
   // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
-    thr_.Join(); // wait loop quiting
+  {
+    // The loop must not be destroyed until Quit() returns
+    MutexGuard guard{mutex_};
+    if (loop_ != nullptr) {
+      loop_->Quit();
+    }
   }
+
+  if (thr_.GetPthreadId() != 0) thr_.Join(); // wait loop quiting
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
@@ -51,7 +56,8 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
 }
-- 
2.43.0


From a6a71a3a7ab693671772557df96a858df19f8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 49/94] fix: StartRun() waited forever for a loop that quits at
 once

---
 kanon/net/event_loop_thread.cc | 11 ++++++-----
 kanon/net/event_loop_thread.h  |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index f037384..bb30f0b 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -6,6 +6,7 @@ using namespace kanon;
 
 EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
+  , is_running_{false}
   , mutex_{}
   , cond_{mutex_}
   , thr_{name}
@@ -33,11 +34,10 @@ EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
       std::bind(&EventLoopThread::BackGroundStartLoop, this,
                 std::reference_wrapper<ThreadInitCallback const>(init_cb)));
 
-  {
-    MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
-      cond_.Wait();
-    }
+  MutexGuard guard{mutex_};
+  // The loop may have quit already
+  while (!is_running_) {
+    cond_.Wait();
   }
 
   return loop_;
@@ -51,6 +51,7 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   {
     MutexGuard guard{mutex_};
     loop_ = &loop;
+    is_running_ = true;
     cond_.Notify();
   }
 
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..e8bcaca 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -46,6 +46,7 @@ class EventLoopThread : noncopyable {
   KANON_NET_NO_API void BackGroundStartLoop(ThreadInitCallback const &init_cb);
 
   EventLoop *loop_;
+  bool is_running_; //!< The loop has been published
 
   MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
-- 
2.43.0


From 3ece645b2c8845da4650a6b5999c82e4fed27ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 50/94] fix: the holder of a mutex was changed by threads that
 do not hold it

---
 kanon/thread/mutex_lock.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..c2e13e2 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -87,6 +87,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
  public:
   MutexLock()
+    : holder_(0)
   {
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_init(&mutex_, NULL));
@@ -106,12 +107,12 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +133,18 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
-- 
2.43.0


From d8d657112aa04b7b0d4ea943d1ec56c745f2e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 51/94] fix: AssertLocked() aborted when the mutex is held and
 not when it is not

---
 kanon/thread/mutex_lock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index c2e13e2..22996fb 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -103,7 +103,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  void AssertLocked() { ASSERT(IsLockedInThisThread() ? 0 : EPERM); }
 
   void Lock() ACQUIRE()
   {
-- 
2.43.0


From ac7a9401346bd2ba99b65add62f80808d83720ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 52/94] fix: a spurious wake-up ended the waiting for a latch

---
 kanon/thread/count_down_latch.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..f61fe65 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -36,7 +36,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Add(int count) KANON_NOEXCEPT
@@ -49,7 +49,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,7 +62,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
@@ -86,7 +86,7 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Countdown() KANON_NOEXCEPT
-- 
2.43.0


From 2ea3483840a8b874a80208898b6c4dbba1960891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 53/94] fix: the threads that wait for a latch were not woken
 when it was opened by other means than Countdown()

---
 kanon/thread/count_down_latch.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index f61fe65..db2e22f 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,12 +30,14 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    if (count_ <= 0) cond_.NotifyAll();
     while (count_ > 0) cond_.Wait();
   }
 
@@ -43,12 +45,14 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   void AddAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ += count;
+    if (count_ <= 0) cond_.NotifyAll();
     while (count_ > 0) cond_.Wait();
   }
 
@@ -69,12 +73,14 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ -= count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   int GetCount() const KANON_NOEXCEPT
-- 
2.43.0


From ca75dd24d5ea049b7d11bdb8f2aa98d1500d38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 54/94] fix: a Thread that was moved from detached the thread 0

---
 kanon/thread/thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..0e1f864 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -62,6 +62,7 @@ class Thread : noncopyable {
     , name_{std::move(rhs.name_)}
   {
     rhs.pthreadId_ = 0;
+    rhs.is_started_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
-- 
2.43.0


From 7c4261253488635c4e6ae04d2f2773d9ffd87dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 55/94] fix: every thread of a thread pool ran one task only,
 and a pool with fewer tasks than threads waited for them forever

---
 kanon/thread/thread_pool.cc | 26 ++++++++++++++++++--------
 kanon/thread/thread_pool.h  | 10 ++++++++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..65630b0 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -10,10 +10,17 @@ ThreadPool::ThreadPool(int max_queue_size,
   , not_full_{ mutex_ }
   , not_empty_{ mutex_ }
   , max_queue_size_{ max_queue_size }
+  , stopped_{ false }
   , name_{ name }
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    stopped_ = true;
+    not_empty_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,11 +31,12 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
+      Task task;
 
-      if (task) {
+      while (Pop(task)) {
         // Exception is handled by Thread
-        task();
+        if (task) task();
+        task = nullptr;
       }
     }, name_ + std::to_string(i));
     
@@ -41,7 +49,7 @@ void ThreadPool::StartRun(int thread_num) {
 void ThreadPool::Push(Task task) {
   MutexGuard guard{ mutex_ };
 
-  while (static_cast<int>(tasks_.size()) == max_queue_size_) {
+  while (static_cast<int>(tasks_.size()) >= max_queue_size_) {
     not_full_.Wait();
   }
 
@@ -49,17 +57,19 @@ void ThreadPool::Push(Task task) {
   not_empty_.Notify();
 }
 
-auto ThreadPool::Pop() -> Task
+auto ThreadPool::Pop(Task &task) -> bool
 {
   MutexGuard guard{ mutex_ };
 
-  while (tasks_.size() == 0) {
+  while (tasks_.size() == 0 && !stopped_) {
     not_empty_.Wait();
   }
 
-  auto task = std::move(tasks_.front());
+  if (tasks_.size() == 0) return false;
+
+  task = std::move(tasks_.front());
   tasks_.pop();
 
   not_full_.Notify();
-  return task;
+  return true;
 }
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..84988bc 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -46,21 +46,27 @@ class ThreadPool : noncopyable {
 
   void SetMaxQueueSize(int num) KANON_NOEXCEPT
   {
-    if (num > 0) max_queue_size_ = num;
+    MutexGuard guard{mutex_};
+    if (num > 0) {
+      max_queue_size_ = num;
+      not_full_.NotifyAll();
+    }
   }
 
  private:
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return false -- the pool is stopped and there are no tasks left
    */
-  Task Pop();
+  bool Pop(Task &task);
 
   mutable MutexLock mutex_;
   Condition not_full_ GUARDED_BY(mutex_);
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool stopped_;
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From 1e328ac6aff14077f04ec26217ed50b166f0d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 56/94] fix: a thread used its Thread object after the object
 was moved or destroyed

---
 kanon/thread/thread.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..3e8ef7d 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -53,6 +53,16 @@ Thread::~Thread()
   }
 }
 
+namespace detail {
+
+// The data of a running thread
+struct ThreadData {
+  Thread::Threadfunc func_;
+  string name_;
+};
+
+} // namespace detail
+
 void Thread::StartRun()
 {
   assert(!is_started_);
@@ -61,7 +71,11 @@ void Thread::StartRun()
   // auto data = new detail::ThreadData{ func_, name_ };
 #ifdef KANON_ON_UNIX
   int err = 0;
-  err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
+  // The thread may outlive this object(detached), so it has its own data
+  std::unique_ptr<detail::ThreadData> data(
+      new detail::ThreadData{std::move(func_), name_});
+  err = pthread_create(&pthreadId_, NULL, &detail::Run, data.get());
+  if (err == 0) data.release();
   if (err != 0) {
     char buf[128];
     auto ret = ::strerror_r(errno, buf, sizeof buf);
@@ -74,7 +88,8 @@ void Thread::StartRun()
   }
 #else
   try {
-    std::thread thr(&detail::Run, this);
+    std::thread thr(&detail::Run,
+                    new detail::ThreadData{std::move(func_), name_});
 #ifdef KANON_ON_UNIX
     pthreadId_ = thr.native_handle();
 #else
@@ -132,7 +147,7 @@ namespace detail {
 void *Run(void *arg)
 {
   CurrentThread::cacheTid();
-  auto thread = reinterpret_cast<Thread *>(arg);
+  std::unique_ptr<ThreadData> thread(reinterpret_cast<ThreadData *>(arg));
   CurrentThread::t_name =
       thread->name_.empty() ? "KanonThread" : thread->name_.c_str();
 
-- 
2.43.0


From b27d7c074832823c2a9bf90370513b56fc0b8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 57/94] fix: no file could be created in the directory of the
 log files (created without write permission)

---
 kanon/log/append_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..eaf2ffb 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -29,7 +29,7 @@ AppendFile::AppendFile(StringArg filename)
     auto ret = 0;
 
 #ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
+    ret = ::mkdir(dir.data(), S_IRWXU | S_IRGRP | S_IXGRP | S_IROTH | S_IXOTH);
 #elif defined(KANON_ON_WIN)
     ret = ::_mkdir(dir.data());
 #else
-- 
2.43.0


From bf5597e09414d4a650a064798f738459a91817f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 58/94] fix: old log files were removed twice, never or while
 the list was changed, and ~LogFile() could wait forever

---
 kanon/log/log_file.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..c1c3d71 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,23 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      std::vector<std::string> old_files;
+
+      while (true) {
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (log_files_dup_.empty() && !quit_remove_thr_) {
             remove_cond_.Wait();
           }
+          if (log_files_dup_.empty()) break;
+
+          old_files.swap(log_files_dup_);
         }
 
-        for (auto log_file : log_files_dup_) {
+        for (auto const &log_file : old_files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
+        old_files.clear();
       }
     });
   }
@@ -48,8 +52,11 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
-    quit_remove_thr_ = true;
-    remove_cond_.Notify();
+    {
+      KANON_MUTEX_GUARD(remove_mtx_);
+      quit_remove_thr_ = true;
+      remove_cond_.Notify();
+    }
 
     remove_thr_.Join();
   }
@@ -83,14 +90,16 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     }
   }
 
-  if (log_files_.size() >= log_file_num_) {
+  if (log_files_.size() >= log_file_num_ && log_files_.size() > 1) {
+    KANON_MUTEX_GUARD(remove_mtx_);
     auto last_file = std::move(log_files_.back());
     log_files_.pop_back();
 
-    log_files_dup_.swap(log_files_);
+    log_files_dup_.insert(log_files_dup_.end(), log_files_.begin(),
+                          log_files_.end());
+    log_files_.clear();
     log_files_.emplace_back(std::move(last_file));
 
-    KANON_MUTEX_GUARD(remove_mtx_);
     remove_cond_.Notify();
   }
 }
-- 
2.43.0


From b755d6a64812099d1bddf81bcf85b6210290943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 59/94] fix: Log the messages appended before AsyncLog is
 stopped

---
 kanon/log/async_log.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..eacbdce 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -65,7 +65,10 @@ void AsyncLog::StartRun()
                      roll_interval_, flush_interval_);
 
     // back thread do long loop
-    while (running_) {
+    // The messages appended before Stop() must be logged also,
+    // therefore, the last pass is done after the log has been stopped
+    bool running = true;
+    while (running) {
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +83,7 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty()) {
+        if (running_ && buffers_.empty()) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -88,6 +91,8 @@ void AsyncLog::StartRun()
           // not_empty_.Wait();
         }
 
+        running = running_;
+
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
         buffers_.emplace_back(std::move(current_buffer_));
@@ -152,8 +157,12 @@ void AsyncLog::Stop() KANON_NOEXCEPT
 {
   assert(running_);
 
-  running_ = false;
-  not_empty_.Notify();
+  {
+    // Don't stop between the check and the wait of the back thread
+    MutexGuard guard{mutex_};
+    running_ = false;
+    not_empty_.Notify();
+  }
   back_thr_.Join();
 }
 
-- 
2.43.0


From ba1f2a62721e7533f01a1baf849d6970e7313820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 60/94] fix: Avoid int overflow when a TimeStamp is moved by
 seconds or milliseconds

---
 kanon/util/time_stamp.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index d2f8752..94cc243 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -148,12 +148,13 @@ class TimeStamp
 
   TimeStamp operator+(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(ms.count * 1000);
+    return TimeStamp(microseconds_ + int64_t(ms.count) * 1000);
   }
 
   TimeStamp operator+(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(sec.count * 1000000);
+    return TimeStamp(microseconds_ +
+                     int64_t(sec.count) * kMicrosecondsPerSeconds_);
   }
 
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
@@ -164,17 +165,18 @@ class TimeStamp
 
   TimeStamp operator-(Microsecond us) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(-us.count);
+    return TimeStamp(microseconds_ - us.count);
   }
 
   TimeStamp operator-(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + MilliSecond(-ms.count);
+    return TimeStamp(microseconds_ - int64_t(ms.count) * 1000);
   }
 
   TimeStamp operator-(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Second(-sec.count);
+    return TimeStamp(microseconds_ -
+                     int64_t(sec.count) * kMicrosecondsPerSeconds_);
   }
 
   friend TimeStamp operator+(double seconds, TimeStamp ts) KANON_NOEXCEPT
-- 
2.43.0


From 9ff26c3bda6ced34a58295a9a98cb8542977211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 61/94] fix: TimeStamp::ToString() printed a wrong fraction

---
 kanon/util/time_stamp.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 815472c..d128597 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -22,7 +22,9 @@ std::string TimeStamp::ToString() const
 
   int64_t seconds = microseconds_ / kMicrosecondsPerSeconds_;
   int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-  snprintf(buf, sizeof buf, "%" PRId64 ".6%d", seconds, microseconds);
+  snprintf(buf, sizeof buf, "%s%" PRId64 ".%06d", microseconds_ < 0 ? "-" : "",
+           seconds < 0 ? -seconds : seconds,
+           microseconds < 0 ? -microseconds : microseconds);
 
   return buf;
 }
-- 
2.43.0


From c62ff268a496d8bec6feea56c567c2c167e5be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 62/94] fix: TimeStamp::ToFormattedString() before the epoch

---
 kanon/util/time_stamp.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index d128597..3cbd057 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -34,6 +34,12 @@ std::string TimeStamp::ToFormattedString(bool isShowMicroseconds) const
   char buf[64]{ 0 };
 
   auto seconds = static_cast<time_t>(microseconds_ / kMicrosecondsPerSeconds_);
+  int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
+  if (microseconds < 0) {
+    // Before the epoch
+    microseconds += kMicrosecondsPerSeconds_;
+    --seconds;
+  }
   struct tm tm;
   // gmtime_r(&seconds, &tm);
 #ifdef KANON_ON_UNIX
@@ -42,9 +48,6 @@ std::string TimeStamp::ToFormattedString(bool isShowMicroseconds) const
   ::localtime_s(&tm, &seconds);
 #endif
   if (isShowMicroseconds) {
-    int microseconds =
-        static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-
     snprintf(buf, sizeof buf, "%4d%02d%02d %02d:%02d:%02d.%06d",
              tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour,
              tm.tm_min, tm.tm_sec, microseconds);
-- 
2.43.0


From 6db5e09f0f6d8dafd9cea75eafe0b4bab80d3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 63/94] fix: TimeStamp::FromTimeStr() used a text that it could
 not parse

---
 kanon/util/time_stamp.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 3cbd057..72a3c76 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -67,10 +67,8 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
   memset(&tm, 0, sizeof tm);
   // Must init
   if (!strptime(rep.c_str(), format, &tm)) {
-    if (ok) {
-      *ok = false;
-      return TimeStamp(0);
-    }
+    if (ok) *ok = false;
+    return TimeStamp(0);
   }
   time_t t = mktime(&tm);
   if (ok) *ok = true;
-- 
2.43.0


From 99d9de4bfe5a037893d2537a4807dc52494bf3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 64/94] fix: Convert an optional that has no value

---
 kanon/util/optional.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 67f7e77..1d20882 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -61,6 +61,9 @@ class optional {
   typedef optional<T> Self;
   typedef std::pair<bool, T> Rep;
 
+  template <typename U>
+  friend class optional;
+
  public:
   template <typename = typename std::enable_if<
                 std::is_default_constructible<T>::value>::type>
@@ -81,13 +84,13 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.has_value(), other.value()}}
+    : opt_{Rep(other.opt_.first, other.opt_.second)}
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.has_value(), std::move(other.value())}}
+    : opt_{Rep(other.opt_.first, std::move(other.opt_.second))}
   {
   }
 
@@ -97,7 +100,7 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.has_value(), other.value()};
+    opt_ = Rep(other.opt_.first, other.opt_.second);
 
     return *this;
   }
@@ -105,7 +108,7 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> &&other) KANON_NOEXCEPT
   {
-    std::swap(opt_, other.opt_);
+    opt_ = Rep(other.opt_.first, std::move(other.opt_.second));
 
     return *this;
   }
-- 
2.43.0


From ed24bc4fcba5b8bed02841532a068a27af8f07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 65/94] fix: StringViewToXX() returned truncated or out of
 range numbers, overran its static buffer and shared it among threads

---
 kanon/string/string_view_util.cc | 65 ++++++++++++--------------------
 kanon/string/string_view_util.h  | 24 ++++++++++--
 2 files changed, 45 insertions(+), 44 deletions(-)

diff --git a/kanon/string/string_view_util.cc b/kanon/string/string_view_util.cc
index ba2b153..63f03cb 100644
--- a/kanon/string/string_view_util.cc
+++ b/kanon/string/string_view_util.cc
@@ -1,68 +1,53 @@
 #include "string_view_util.h"
 
+#include <errno.h>
+#include <limits>
 #include <string.h> // memcpy
-#include <assert.h> // assert
 #include <stdlib.h> // strtoXXX()
 
 using namespace kanon;
 
-optional<uint64_t> kanon::StringViewToU64(StringView const &sv,
-                                          int base) KANON_NOEXCEPT
+// There is no value if the text doesn't start with a number or
+// T can't represent it
+template <typename T, typename F>
+static optional<T> Convert(StringView const &sv, int base, F strto)
 {
-  assert(sv.size() < 64);
-  static char buf[64];
+  char buf[72];
+  if (sv.size() >= sizeof buf) return make_null_optional<T>();
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
+
   char *end = NULL;
-  uint64_t ret = strtoull(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<uint64_t>();
+  errno = 0;
+  auto ret = strto(buf, &end, base);
+  if (end == buf || errno == ERANGE || ret < std::numeric_limits<T>::min() ||
+      ret > std::numeric_limits<T>::max())
+  {
+    return make_null_optional<T>();
   }
-  return ret;
+  return static_cast<T>(ret);
+}
+
+optional<uint64_t> kanon::StringViewToU64(StringView const &sv,
+                                          int base) KANON_NOEXCEPT
+{
+  return Convert<uint64_t>(sv, base, ::strtoull);
 }
 
 optional<uint32_t> kanon::StringViewToU32(StringView const &sv,
                                           int base) KANON_NOEXCEPT
 {
-  assert(sv.size() < 32);
-  static char buf[32];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  uint32_t ret = (uint32_t)strtoul(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<uint32_t>();
-  }
-  return ret;
+  return Convert<uint32_t>(sv, base, ::strtoull);
 }
 
 optional<int32_t> kanon::StringViewTo32(StringView const &sv,
                                         int base) KANON_NOEXCEPT
 {
-  assert(sv.size() < 32);
-  static char buf[32];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  int32_t ret = (int32_t)strtol(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<int32_t>();
-  }
-  return ret;
+  return Convert<int32_t>(sv, base, ::strtoll);
 }
 
 optional<int64_t> kanon::StringViewTo64(StringView const &sv,
                                         int base) KANON_NOEXCEPT
 {
-  assert(sv.size() < 64);
-  static char buf[64];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  int64_t ret = strtoll(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<int64_t>();
-  }
-  return ret;
+  return Convert<int64_t>(sv, base, ::strtoll);
 }
-
diff --git a/kanon/string/string_view_util.h b/kanon/string/string_view_util.h
index 9221723..c81d799 100644
--- a/kanon/string/string_view_util.h
+++ b/kanon/string/string_view_util.h
@@ -6,6 +6,7 @@
 #include "kanon/util/optional.h"
 
 #include <cstdint>
+#include <limits>
 
 namespace kanon {
 
@@ -35,28 +36,43 @@ KANON_CORE_API optional<int64_t> StringViewTo64(StringView const &sv,
 KANON_CORE_API optional<int32_t> StringViewTo32(StringView const &sv,
                                                 int base = 10) KANON_NOEXCEPT;
 
+namespace detail {
+
+template <typename T, typename U>
+KANON_INLINE optional<T> NarrowOptional(optional<U> const &val) KANON_NOEXCEPT
+{
+  if (!val || *val < std::numeric_limits<T>::min() ||
+      *val > std::numeric_limits<T>::max())
+  {
+    return make_null_optional<T>();
+  }
+  return static_cast<T>(*val);
+}
+
+} // namespace detail
+
 KANON_INLINE optional<int16_t> StringViewTo16(StringView const &sv,
                                               int base = 10) KANON_NOEXCEPT
 {
-  return StringViewTo32(sv, base);
+  return detail::NarrowOptional<int16_t>(StringViewTo32(sv, base));
 }
 
 KANON_INLINE optional<uint16_t> StringViewToU16(StringView const &sv,
                                                 int base = 10) KANON_NOEXCEPT
 {
-  return StringViewToU32(sv, base);
+  return detail::NarrowOptional<uint16_t>(StringViewToU32(sv, base));
 }
 
 KANON_INLINE optional<int8_t> StringViewTo8(StringView const &sv,
                                             int base = 10) KANON_NOEXCEPT
 {
-  return StringViewTo32(sv, base);
+  return detail::NarrowOptional<int8_t>(StringViewTo32(sv, base));
 }
 
 KANON_INLINE optional<uint8_t> StringViewToU8(StringView const &sv,
                                               int base = 10) KANON_NOEXCEPT
 {
-  return StringViewToU32(sv, base);
+  return detail::NarrowOptional<uint8_t>(StringViewToU32(sv, base));
 }
 
 } // namespace kanon
-- 
2.43.0


From 90d6ea8f56c79c9b35297b49153db91716d29c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 66/94] fix: lexical_cast to an integer accepted empty texts
 and truncated numbers that the type cannot represent

---
 kanon/string/lexical_cast.h | 52 ++++++++++---------------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index e0595f4..24c7ffd 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -1,6 +1,8 @@
 #ifndef KANON_LEXICAL_CAST_H
 #define KANON_LEXICAL_CAST_H
 
+#include <errno.h>
+#include <limits>
 #include <string.h>
 #include <string>
 
@@ -53,42 +55,26 @@ class LexicalCast<char const *, Src, false> {
 DST_STRING_SPECIALIZATION(std::string);
 DST_STRING_SPECIALIZATION(kanon::StringView);
 
-static char lexical_cvt_buf[64];
-
 #define Str2Int(integer_type, str_type, func)                                  \
   template <>                                                                  \
   class LexicalCast<integer_type, str_type, false> {                           \
    public:                                                                     \
     static kanon::optional<integer_type> apply(str_type const &src)            \
     {                                                                          \
+      char buf[64];                                                            \
       if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
-      ::strncpy(lexical_cvt_buf, src.data(), src.size());                      \
-      lexical_cvt_buf[src.size()] = 0;                                         \
-                                                                               \
-      char *endptr = nullptr;                                                  \
+      ::memcpy(buf, src.data(), src.size());                                   \
+      buf[src.size()] = 0;                                                     \
                                                                                \
-      auto ret =                                                               \
-          static_cast<integer_type>(func(lexical_cvt_buf, &endptr, 10));       \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
-    }                                                                          \
-  }
-
-#define Str2Int2(integer_type, str_type, func)                                 \
-  template <>                                                                  \
-  class LexicalCast<integer_type, str_type, false> {                           \
-   public:                                                                     \
-    static kanon::optional<integer_type> apply(str_type const &src)            \
-    {                                                                          \
-      if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
       char *endptr = nullptr;                                                  \
                                                                                \
-      auto ret = static_cast<integer_type>(func(src.c_str(), &endptr, 10));    \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
+      errno = 0;                                                               \
+      const auto ret = func(buf, &endptr, 10);                                 \
+      if (endptr != buf && endptr == buf + src.size() && errno != ERANGE &&    \
+          ret >= std::numeric_limits<integer_type>::min() &&                   \
+          ret <= std::numeric_limits<integer_type>::max())                     \
+      {                                                                        \
+        return kanon::optional<integer_type>(static_cast<integer_type>(ret));  \
       }                                                                        \
                                                                                \
       return kanon::make_null_optional<integer_type>();                        \
@@ -111,20 +97,8 @@ static char lexical_cvt_buf[64];
   Str2Int(unsigned long, str, ::strtoul);                                      \
   Str2Int(unsigned long long, str, ::strtoull)
 
-#define Str2IntForOne2(str)                                                    \
-  Str2Int(i8, str, ::strtol);                                                  \
-  Str2Int(i16, str, ::strtol);                                                 \
-  Str2Int(int, str, ::strtol);                                                 \
-  Str2Int(long, str, ::strtol);                                                \
-  Str2Int(long long, str, ::strtoll);                                          \
-  Str2Int(u8, str, ::strtoul);                                                 \
-  Str2Int(u16, str, ::strtoul);                                                \
-  Str2Int(unsigned int, str, ::strtoul);                                       \
-  Str2Int(unsigned long, str, ::strtoul);                                      \
-  Str2Int(unsigned long long, str, ::strtoull)
-
 Str2IntForOne(kanon::StringView);
-Str2IntForOne2(std::string);
+Str2IntForOne(std::string);
 
 template <typename Dst, typename Src>
 auto lexical_cast(Src const &src) -> decltype(LexicalCast<Dst, Src>::apply(src))
-- 
2.43.0


From c9dbbf9f1b464b3ce5ac0f605a48f4cee4ed25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 67/94] fix: lexical_cast to a string lost the last character
 when the buffer was full

---
 kanon/string/lexical_cast.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index 24c7ffd..91808c5 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -35,8 +35,7 @@ extern CastLexicalStream _cast_stream;
     {                                                                          \
       _cast_stream.reset();                                                    \
       _cast_stream << src;                                                     \
-      _cast_stream << '\0';                                                    \
-      return type(_cast_stream.data(), _cast_stream.size() - 1);               \
+      return type(_cast_stream.data(), _cast_stream.size());                   \
     }                                                                          \
   }
 
-- 
2.43.0


From 7a5623c20ccfc313b7b1928cd10ba06cfddea587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 68/94] fix: Small buffers dropped every floating-point number

---
 kanon/string/fixed_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..c912fff 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -163,7 +163,7 @@ class FixedBuffer {
 
  private:
   static constexpr unsigned kMaxIntSize = 32;
-  static constexpr unsigned kMaxFloatingSize = 324;
+  static constexpr unsigned kMaxFloatingSize = 32;
 
   char data_[SZ];
   unsigned len_;
-- 
2.43.0


From 2e2f963fcba6dc837189df348a5c6f5041f82e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 69/94] fix: appendPtr() could write past the end of the buffer

---
 kanon/string/fixed_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index c912fff..b5e9430 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -123,7 +123,7 @@ class FixedBuffer {
 
     if (!p && avali() > 6) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
+    } else if (p && avali() > 18) {
       cur[0] = '0';
       cur[1] = 'x';
 
-- 
2.43.0


From 837e4043bd6fd7fa1b56d045e1d233f1a6c0b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 70/94] fix: FmtStream read past the end of a format that ends
 with a placeholder

---
 kanon/string/fmt_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 878e595..5ec85ae 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -134,7 +134,7 @@ void FMT_STREAM_TEMPLATE::ParseAndSerializeSingle(StringView fmt, Arg arg,
   stream_.Append(fmt.data(), pos == StringView::npos ? fmt.size() : pos);
 
   if (pos < fmt.size()) {
-    if (fmt[pos + 1] == '%') {
+    if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') {
       stream_.Append("%");
       ParseAndSerialize(fmt.substr(pos + 2), arg, args...);
     } else {
-- 
2.43.0


From 4065e640d07c18948cd4b8c33e45abedc23a4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 71/94] fix: Fmt reported a length beyond its buffer

---
 kanon/string/lexical_stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/lexical_stream.h b/kanon/string/lexical_stream.h
index fae952a..7f35410 100644
--- a/kanon/string/lexical_stream.h
+++ b/kanon/string/lexical_stream.h
@@ -175,7 +175,8 @@ class KANON_DEPRECATED_ATTR Fmt {
                   "Fmt: Give value's type must be integer or floating-point");
     auto ret = snprintf(buf_, sizeof buf_, str, val);
     if (ret < 0) throw std::runtime_error("Failed to call snprintf in Fmt");
-    len_ = (size_type)ret;
+    // The text may be truncated
+    len_ = (size_type)ret < sizeof buf_ ? (size_type)ret : sizeof buf_ - 1;
   }
 
   explicit Fmt(std::string const &str)
-- 
2.43.0


From e927928b0cfaa2f351a36c5a77b3be8937d2887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 72/94] fix: FmtStream writes the text of a C string, not its
 address

---
 kanon/string/fmt_stream.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 5ec85ae..480c8a9 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -2,6 +2,7 @@
 #define KANON_STRING_FMT_STREAM_H
 
 #include <assert.h>
+#include <cstddef>
 
 #include "kanon/string/stream_common.h"
 #include "kanon/string/fixed_buffer.h"
@@ -66,6 +67,15 @@ class FmtStream {
   void SerializeOne(bool arg) KANON_NOEXCEPT { stream_.appendBool(arg); }
   void SerializeOne(void const *p) KANON_NOEXCEPT { stream_.appendPtr(p); }
   void SerializeOne(char c) KANON_NOEXCEPT { stream_.appendChar(c); }
+  // Without this, a C string is converted to void const* (i.e. its address)
+  void SerializeOne(char const *s) KANON_NOEXCEPT
+  {
+    stream_.Append(StringView(s));
+  }
+  void SerializeOne(std::nullptr_t) KANON_NOEXCEPT
+  {
+    stream_.appendPtr(nullptr);
+  }
   void SerializeOne(std::string const &s) KANON_NOEXCEPT
   {
     stream_.Append(s.data(), s.size());
-- 
2.43.0


From ef0ef36a08e7064dac4c6ef44ceb3551231c6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 73/94] fix: Append() of no bytes asserted on an empty chunk
 list

---
 kanon/buffer/chunk_list.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..cf6a2b1 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -46,6 +46,8 @@ auto ChunkList::Prepend(void const *data, size_t len) -> void
 
 void ChunkList::Append(void const *data, size_t len)
 {
+  if (len == 0) return;
+
   auto buf = reinterpret_cast<char const *>(data);
 
   /* Allow user append data even though the size header
-- 
2.43.0


From 9c1f835a95b3074322ad4655f729d1e4be8b255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 74/94] fix: AppendChunkList() spliced at the end iterator

---
 kanon/buffer/chunk_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index cf6a2b1..fcf1451 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -234,7 +234,7 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  buffers_.splice_after(buffers_.before_end(), rhs->buffers_);
 }
 
 auto ChunkList::DebugPrint() -> void
-- 
2.43.0


From bf0373f7e83397492bd88db3dc4c95b12c1cc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 75/94] fix: GetReadableSize() assumed that middle chunks are
 full

---
 kanon/buffer/chunk_list.cc | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index fcf1451..737c1fe 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -127,30 +127,13 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
+  // The chunks between the first and the last are not always full
+  // (e.g. AppendChunkList(), ReserveChunk())
+  SizeType size = 0;
+  for (auto const &chunk : buffers_) {
+    size += chunk.GetReadableSize();
   }
+  return size;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
-- 
2.43.0


From f9f32e3d40f761815a043fddc93dd6fbf81bbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 76/94] fix: ReserveWriteSpace() reserved too few chunks

---
 kanon/buffer/chunk_list.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 737c1fe..a2c2720 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -194,16 +194,14 @@ void ChunkList::ReserveFreeChunk(size_t chunk_size)
 
 auto ChunkList::ReserveWriteSpace(size_t size) -> void
 {
-  assert((CHUNK_SIZE & 0x1) == 0);
-
-  for (auto const &buffer : buffers_) {
-    if (size <= buffer.GetWritableSize()) return;
-    size -= buffer.GetWritableSize();
-  }
-
-  assert(size >= 1);
-  const auto chunk_size = ((size - 1) >> 12) + 1;
-  ReserveFreeChunk(chunk_size);
+  // Append() fills the last chunk only,
+  // and the first chunk reserves the space of header
+  const size_t writable = buffers_.empty() ? 0 : buffers_.back().GetWritableSize();
+  if (size <= writable) return;
+  size -= writable;
+  if (buffers_.empty()) size += sizeof(size_t);
+
+  ReserveFreeChunk((size - 1) / CHUNK_SIZE + 1);
 }
 
 auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
-- 
2.43.0


From eb04bf6120a77066bb1de803fab1421d4cca5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 77/94] fix: ChunkList::Clone() did not copy the bytes

---
 kanon/buffer/chunk_list.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..3116029 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -104,6 +104,14 @@ class KANON_CORE_NO_API Chunk {
     memcpy(GetReadBegin(), data, len);
   }
 
+  void CopyFrom(Chunk const &other) KANON_NOEXCEPT
+  {
+    assert(max_size_ == other.max_size_);
+    read_index_ = other.read_index_;
+    write_index_ = other.write_index_;
+    ::memcpy(GetReadBegin(), other.GetReadBegin(), other.GetReadableSize());
+  }
+
   bool IsHeaderInitState() const KANON_NOEXCEPT
   {
     return (sizeof(size_t) == read_index_) && (read_index_ == write_index_);
@@ -178,19 +186,26 @@ class ChunkList final {
 
   // Explicit copy API to avoid implicit copy
 
-  ChunkList Clone()
+  // The payload is not a member of Chunk,
+  // the list can't copy it
+  ChunkList Clone() const
   {
     ChunkList ret;
-    new (&ret.buffers_) ListType(buffers_);
-    new (&ret.free_buffers_) ListType(free_buffers_);
+    for (auto const &chunk : buffers_) {
+      auto node = ret.buffers_.create_node_size(CHUNK_SIZE);
+      ret.buffers_.push_back(node);
+      node->val.CopyFrom(chunk);
+    }
+    ret.ReserveFreeChunk(free_buffers_.size());
     return ret;
   }
 
   void CopyAssign(ChunkList const &rhs)
   {
-    buffers_ = rhs.buffers_;
-    free_buffers_ = rhs.free_buffers_;
-    *this = rhs;
+    if (this != &rhs) {
+      ChunkList tmp(rhs.Clone());
+      swap(tmp);
+    }
   }
 
   // Disable implicit copy
-- 
2.43.0


From 8a01cb1fffccf973e5c8937e85dd87b931dcf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 78/94] fix: ChunkListWriteFd() lost errors, repeated chunks
 and wrote on after a short write

---
 kanon/linux/net/chunk_list.cc | 43 +++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..351ba36 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -12,42 +12,47 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
   if (buffer.GetChunkSize() == 1) {
     auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
+    auto n = sock::Write(fd, first_chunk->GetReadBegin(),
+                         first_chunk->GetReadableSize());
+    if (n < 0) {
+      saved_errno = errno;
+      return 0;
+    }
+    return (ChunkList::SizeType)n;
   }
 
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
-  auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
-
+  auto chunk = buffer.begin();
+  ChunkList::SizeType remaining = buffer.GetChunkSize();
   ChunkList::SizeType ret = 0;
 
-  while (cnt--) {
+  while (remaining > 0) {
+    FixedVector<struct iovec> iovecs(remaining < IOVEC_MAX ? remaining
+                                                           : IOVEC_MAX);
+    remaining -= iovecs.size();
+
+    ChunkList::SizeType size = 0;
     for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
-      ++first_chunk;
+      x.iov_base = chunk->GetReadBegin();
+      x.iov_len = chunk->GetReadableSize();
+      size += x.iov_len;
+      ++chunk;
     }
 
     auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
+    if (n < 0) {
       saved_errno = errno;
       break;
     }
+
+    ret += (ChunkList::SizeType)n;
+    // The next chunks must follow the bytes that are not written
+    if ((ChunkList::SizeType)n < size) break;
   }
 
   return ret;
-- 
2.43.0


From 71655c560deb49ce572059c9e44bacf703512c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 79/94] fix: InetAddr left the scope and flow of an IPv6
 address uninitialised

---
 kanon/net/inet_addr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 37c50c4..461e6ba 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -34,6 +34,7 @@ static_assert(sizeof(InetAddr) == sizeof(struct sockaddr_in6),
 
 InetAddr::InetAddr(Port port, bool loopback, bool v6)
 {
+  BZERO(&addr6_, sizeof addr6_);
   if (v6) {
     addr6_.sin6_port = sock::ToNetworkByteOrder16(port);
     addr6_.sin6_addr = loopback ? in6addr_loopback : in6addr_any;
@@ -48,6 +49,7 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
 
 InetAddr::InetAddr(StringView ip, Port port)
 {
+  BZERO(&addr6_, sizeof addr6_);
   if (ip.find('.') != StringView::npos) {
     sock::FromIpPort(ip.data(), port, addr_);
   } else if (ip.find(':') != StringView::npos) {
@@ -59,6 +61,7 @@ InetAddr::InetAddr(StringView ip, Port port)
 
 InetAddr::InetAddr(StringView addr)
 {
+  BZERO(&addr6_, sizeof addr6_);
 #if 0
   // Address format:
   // host-part:port-part
-- 
2.43.0


From ff5c7596555ec9adf6d7b8bad544ad7ef624e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 80/94] fix: InetAddr(ip, port) read past an unterminated text,
 took ::ffff:1.2.3.4 for IPv4 and threw an InetAddr

---
 kanon/net/inet_addr.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 461e6ba..cf2a500 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -50,12 +50,14 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
 InetAddr::InetAddr(StringView ip, Port port)
 {
   BZERO(&addr6_, sizeof addr6_);
-  if (ip.find('.') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr_);
-  } else if (ip.find(':') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr6_);
+  // An Ipv6 address may end with a Ipv4 address,
+  // but only Ipv6 address can hold colon
+  if (ip.find(':') != StringView::npos) {
+    sock::FromIpPort(ip.ToString(), port, addr6_);
+  } else if (ip.find('.') != StringView::npos) {
+    sock::FromIpPort(ip.ToString(), port, addr_);
   } else {
-    throw InetAddr("This is invalid ip argument");
+    throw InetAddrException("This is invalid ip argument");
   }
 }
 
-- 
2.43.0


From 917474cebbdf75f1a7bfb2faf9547a11388ec460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 81/94] fix: InetAddr(address) read outside an empty text and
 behind "[ip]"

---
 kanon/net/inet_addr.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index cf2a500..5551c3c 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -125,6 +125,8 @@ InetAddr::InetAddr(StringView addr)
     }
   }
 #else
+  if (addr.empty()) throw InetAddrException("This a invalid address");
+
   if (std::isalpha(addr[0])) {
     // Hostname
     auto colon_pos = addr.find(':');
@@ -152,7 +154,9 @@ InetAddr::InetAddr(StringView addr)
     }
   } else if (addr[0] == '[') {
     auto right_pos = addr.find(']');
-    if (right_pos != StringView::npos) {
+    if (right_pos != StringView::npos && right_pos + 1 < addr.size() &&
+        addr[right_pos + 1] == ':')
+    {
       auto const ip = addr.substr_range(1, right_pos).ToString();
       auto const port = addr.substr(right_pos + 2).ToString();
       auto o_port = StringViewToU16(port);
-- 
2.43.0


From 5752d37324b1ac482841393da453a62cc24ce2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 82/94] fix: StringView::split() never ended with an empty
 splitter

---
 kanon/string/string_view.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/string_view.cc b/kanon/string/string_view.cc
index b560a46..625bce5 100644
--- a/kanon/string/string_view.cc
+++ b/kanon/string/string_view.cc
@@ -5,7 +5,8 @@ namespace kanon {
 std::vector<std::string> StringView::split(StringView spliter) const 
 {
   size_type indicator_begin = 0;
-  size_type indicator_end = find(spliter);
+  // An empty spliter occurs everywhere, it doesn't split
+  size_type indicator_end = spliter.empty() ? npos : find(spliter);
   std::vector<std::string> ret{};
   std::string tmp;    
 
-- 
2.43.0


From 4683241be900e3a45e2806bff034fc167818a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 83/94] fix: FixedChunkMemoryPool::Shrink() dereferenced null
 and left the chunks of freed blocks in the free list

---
 kanon/mem/fixed_chunk_memory_pool.cc | 38 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 17c6f83..c8d8189 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -71,25 +71,29 @@ void FixedChunkMemoryPool::Free(void *ptr)
 void FixedChunkMemoryPool::Shrink(size_t sz)
 {
   sz = ALIGN_SIZE(sz);
-  /* Check the block whether it can be freed */
-  Block *tmp_next = nullptr;
+  Block **link = &block_chain_;
+  while (*link) {
+    Block *block = *link;
+    if (!IsBlockFree(block, sz)) {
+      link = &block->next;
+      continue;
+    }
 
-  /* First, Check the block header whether can free */
-  while (IsBlockFree(block_chain_, sz)) {
-    tmp_next = block_chain_->next;
-    free(block_chain_);
-    block_chain_ = tmp_next;
-    block_count_--;
-  }
-  
-  /* The first block is allocated, we can redirect the next don't care it */
-  for (auto block_iter = block_chain_; block_iter->next != nullptr; block_iter = block_iter->next) {
-    tmp_next = block_iter->next;
-    if (IsBlockFree(tmp_next, sz)) {
-      block_iter->next = tmp_next->next;
-      free(tmp_next);
-      block_count_--;
+    /* The chunks of the block must leave the free list before they are gone */
+    auto begin = reinterpret_cast<char*>(block);
+    auto end = begin + BLOCK_SPACE(sz);
+    Chunk **chunk_link = &free_chunk_header_;
+    while (*chunk_link) {
+      auto chunk = reinterpret_cast<char*>(*chunk_link);
+      if (chunk >= begin && chunk < end)
+        *chunk_link = (*chunk_link)->next;
+      else
+        chunk_link = &(*chunk_link)->next;
     }
+
+    *link = block->next;
+    free(block);
+    block_count_--;
   }
 }
 
-- 
2.43.0


From 440e9f39c5ecd695e45b21dba7f453757833a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 84/94] fix: FixedChunkMemoryPool put the headers of chunks at
 misaligned addresses

---
 kanon/mem/fixed_chunk_memory_pool.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index c8d8189..edb8fea 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -11,7 +11,9 @@ using namespace kanon;
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
 #define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
-#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
+/* Round up to the multiplier of the pointer size, the headers following must be aligned also */
+#define ALIGN_SIZE(sz) \
+  ((sz < chunk_next_space) ? chunk_next_space : (sz + alignof(Chunk) - 1) / alignof(Chunk) * alignof(Chunk))
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
-- 
2.43.0


From 56a54048255e9f956fa719f589bb624374e63a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 85/94] fix: ForwardList::assign(count, value) kept the
 elements behind the new ones

---
 kanon/algo/forward_list/forward_list_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index ee70a53..432e481 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -53,8 +53,8 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
     while (count--) {
       push_front(value);
     }
-  } else if (count < 0) {
-    // count < size()
+  } else {
+    // count <= size()
     while (beg.next() != end()) {
       erase_after(beg);
     }
-- 
2.43.0


From 911650828b4371ac0f0ded2c62c26811ccf0be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 86/94] fix: ForwardList::splice_after() of a range reversed it

---
 kanon/algo/forward_list/forward_list_impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 432e481..dbdf934 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -335,6 +335,7 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
+    ++pos;
   }
 }
 
-- 
2.43.0


From 93765bc9d5a53b2f4e6f962ab9c5caaacd14a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 87/94] fix: operator== of ForwardList ignored the lengths and
 read behind the shorter list

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index dbdf934..43a04bd 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -530,7 +530,7 @@ FORWARD_LIST_TEMPLATE_LIST
 KANON_INLINE bool operator==(ForwardList<T, A> const &x,
                              ForwardList<T, A> const &y)
 {
-  return std::equal(x.begin(), x.end(), y.begin());
+  return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From 5c2c24aecc5c849e68beb0ace489c1a58ee0dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 88/94] fix: swap() of two ForwardLists did not compile

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 43a04bd..b8e01b0 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -505,7 +505,7 @@ void FORWARD_LIST_TEMPLATE::swap(Self &other) KANON_NOEXCEPT
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-KANON_INLINE void swap(ForwardList<T, A> const &x, ForwardList<T, A> const &y)
+KANON_INLINE void swap(ForwardList<T, A> &x, ForwardList<T, A> &y)
     KANON_NOEXCEPT_OP(KANON_NOEXCEPT_OP(x.swap(y)))
 {
   x.swap(y);
-- 
2.43.0


From 600f28d8dbdeb7d8438d71e14d53b4463c64d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 89/94] fix: ForwardList::resize(n) did not compile

---
 kanon/algo/forward_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 96def31..104b1bf 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -182,7 +182,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE void resize(SizeType n)
   {
-    resize_impl<ValueType>(n, ValueType{});
+    resize_impl<ValueType>(n);
   }
   void resize(SizeType n, ValueType const &val);
 
-- 
2.43.0


From 6863ed92b1a6eb28c5310ec2148a11c02d433c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 90/94] fix: SafeAnyCast() and SafeUniqueAnyCast() of an empty
 holder dereferenced null

---
 kanon/util/any.h        | 2 +-
 kanon/util/unique_any.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index e05eb19..2f793af 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -199,7 +199,7 @@ KANON_INLINE V *SafeAnyCast(Any const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(static_cast<Any::Holder<V> *>(from.holder_)->holder_);
   }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 058a7a0..c54e097 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -154,7 +154,7 @@ KANON_INLINE V *SafeUniqueAnyCast(UniqueAny const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(
         static_cast<UniqueAny::Holder<V> *>(from.holder_)->holder_);
   }
-- 
2.43.0


From 2810d758ea2218c029832d8093d292ff66de90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 91/94] fix: FixedVector of objects with a destructor did not
 compile

---
 kanon/algo/construct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/construct.h b/kanon/algo/construct.h
index e2f3385..4be22df 100644
--- a/kanon/algo/construct.h
+++ b/kanon/algo/construct.h
@@ -4,6 +4,7 @@
 #include <utility>     // std::forward
 #include <type_traits> // std::is_trivially_destructible
 #include <iterator>    // std::iterator_traits
+#include <memory>      // std::addressof
 
 #include "kanon/util/macro.h"
 
@@ -48,7 +49,7 @@ template <typename FI>
 KANON_INLINE void destroyRange(FI first, FI last, std::false_type)
 {
   for (; first != last; ++first) {
-    destroy(addressof(*first));
+    destroy(std::addressof(*first));
   }
 }
 
-- 
2.43.0


From 2bbe3a5bb20354f2ad233d244cafe1fa7d4e9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 92/94] fix: ReservedArray did not destroy the elements it had
 moved to other storage

---
 kanon/algo/reserved_array.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 9d5a9b5..f530b7b 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -272,6 +272,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
     data_ = new_data;
     end_ = new_end;
@@ -316,9 +317,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
-    for (auto beg = data_ + n; beg != end_; ++beg) {
-      AllocTraits::destroy(*this, beg);
-    }
+    zstl::DestroyRange(data_, end_);
 
     AllocTraits::deallocate(*this, data_, GetSize());
 
-- 
2.43.0


From aba910b4f07759314d5834731179eed269e26206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 93/94] fix: ReservedArray destroyed elements behind the
 storage and threw when an empty array was assigned

---
 kanon/algo/reserved_array.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index f530b7b..71921ed 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -350,20 +350,23 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
+    auto old_size = size();
+    if (other.size() < old_size) {
+      // The elements behind must be destroyed while they are in memory
+      zstl::DestroyRange(data_ + other.size(), end_);
+      end_ = data_ + other.size();
+      old_size = other.size();
+    }
+
     auto tmp = this->reallocate(data_, other.size());
 
-    if (tmp == NULL) {
+    if (tmp == NULL && other.size() != 0) {
       throw std::bad_alloc{};
     }
 
-    if (other.size() > size()) {
-      std::copy(other.begin(), other.begin() + size(), tmp);
-      std::uninitialized_copy(other.begin() + size(), other.end(),
-                              tmp + size());
-    } else {
-      std::copy(other.begin(), other.end(), tmp);
-      zstl::DestroyRange(tmp + other.size(), tmp + size());
-    }
+    std::copy(other.begin(), other.begin() + old_size, tmp);
+    std::uninitialized_copy(other.begin() + old_size, other.end(),
+                            tmp + old_size);
 
     data_ = tmp;
     end_ = data_ + other.size();
-- 
2.43.0


From 1529d471b251b1fa494259d22b0b7407696dca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 94/94] fix: down_pointer_cast() to a type with several bases
 gave a wrong pointer

---
 kanon/util/ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/ptr.h b/kanon/util/ptr.h
index 53ca831..3348eec 100644
--- a/kanon/util/ptr.h
+++ b/kanon/util/ptr.h
@@ -97,7 +97,7 @@ KANON_INLINE std::unique_ptr<T, D> down_pointer_cast(std::unique_ptr<F, D> &ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr.get()) != nullptr);
 #endif
-  return std::unique_ptr<T>(reinterpret_cast<T *>(ptr.release()));
+  return std::unique_ptr<T>(static_cast<T *>(ptr.release()));
 }
 
 template <typename T, typename F>
@@ -115,7 +115,7 @@ KANON_INLINE T *down_pointer_cast(F *ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr) != nullptr);
 #endif
-  return reinterpret_cast<T *>(ptr);
+  return static_cast<T *>(ptr);
 }
 
 template <typename T>
-- 
2.43.0

