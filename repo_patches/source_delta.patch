From 4fc48c98240b4298684299cfd1c918353d206b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 01/37] fix: sort items by their key only, keeping the order of
 items with equal keys

---
 stream2py/utility/sorted_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..4a71064 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -79,7 +79,7 @@ class SortedCollection(object):
     def __init__(self, iterable=(), key=None):
         self._given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        decorated = sorted(((key(item), item) for item in iterable), key=lambda x: x[0])
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From 9a3b8d7959abdc8d32da347ae2e4b266fdfe32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 02/37] fix: keep maxlen when a new key function is assigned to
 a SortedDeque

---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 872cc02ca0017feb275022bd7c092f019862b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 03/37] fix: read with strict_n accepts exactly n available
 items

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..86d21df 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -406,7 +406,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From bd506d5db2a13d04fa239cb990f7ee5786bc2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 04/37] fix: read uses the peek default given when the reader
 was made

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 86d21df..ca8973e 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -361,8 +361,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From 0c738ff9dec7159cd54cbec41a774f3e05a1ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 05/37] fix: range of only new items does not deadlock with a
 waiting writer

---
 stream2py/buffer_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ca8973e..8d93cba 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,11 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
+                # not self.read: taking the reader lock again while a writer waits
+                # would deadlock
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From 3f519a7450be9842c852058fed54af060ba8af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 06/37] fix: iteration and blocking read do not lose items
 added just before the stop

---
 stream2py/buffer_reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 8d93cba..66be152 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,9 +150,7 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
-            else:
+            elif not self.is_stopped:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
     def __next__(self):
@@ -164,11 +162,14 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # Items added before the stop must be found by the read below, so look first
+        was_stopped = self.is_stopped
+
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and was_stopped:
             raise StopIteration
 
         return result
@@ -379,6 +380,7 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                was_stopped = self.is_stopped
                 _read = self.read(
                     n,
                     peek=peek,
@@ -388,7 +390,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif was_stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From fae55912ba26a3aded85367afe1337deada6c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 07/37] fix: a reader made by StreamBuffer can be closed and
 used as a context manager

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 66be152..ca071d8 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -80,7 +80,7 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
+    onclose: Callable = None
     onopen: Callable
 
     def __init__(
-- 
2.43.0


From 9a03e37ea00429894951ac0a6f2e89212b89d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 08/37] fix: closing a reader twice counts as one close

---
 stream2py/buffer_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ca071d8..71e6a11 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -446,8 +446,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From 554de9613c37e3e22485107434cbc45d96cb2936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 09/37] fix: an unbounded buffer (maxlen=None) works with
 auto_drop=False

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..5b9275c 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -253,7 +253,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From 7fe064c978c39c0dfcb433e1d270879900d47302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 10/37] fix: a StreamBuffer whose source fails to open is not
 running

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 5b9275c..4a936c0 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,7 +180,11 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
+            try:
+                self._open()
+            except BaseException:
+                self._stop_event.set()
+                raise
             self._read_to_buffer_thread.start()
 
     def stop(self):
-- 
2.43.0


From 0c3dad18812cca844f95b3471f0faad4de766472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 11/37] fix: start waits for the previous session to close the
 source

---
 stream2py/stream_buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 4a936c0..12ce5c6 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -283,6 +283,10 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        # the previous session has to close the source before it can be opened again
+        if self._read_to_buffer_thread is not None:
+            if self._read_to_buffer_thread.is_alive():
+                self._read_to_buffer_thread.join()
         self.source_buffer = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
-- 
2.43.0


From 49cfd245b685d68cb8ccd89f72ab6ed22a8f9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 12/37] fix: next(stream_buffer) reads the new session after a
 restart

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 12ce5c6..c94aad3 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -288,6 +288,7 @@ class StreamBuffer:
             if self._read_to_buffer_thread.is_alive():
                 self._read_to_buffer_thread.join()
         self.source_buffer = None
+        self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
 
-- 
2.43.0


From 84f735decde870c2624d178698ef997f4fd5604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 13/37] fix: a StreamSource that failed to open can be opened
 again

---
 stream2py/stream_source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..54b00e0 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -102,8 +102,9 @@ class StreamSource(Source, metaclass=ABCMeta):
 
     def _ensure_buffer(self):
         if not self._stream_buffer:
-            self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
-            self._stream_buffer.start()
+            stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+            stream_buffer.start()
+            self._stream_buffer = stream_buffer
 
     def _handle_reader_open(self):
         self._open_readers += 1
-- 
2.43.0


From 2bc3a429f0fbd012a1124eacc0911aef1d4721ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 14/37] fix: opening a reader of a closed StreamSource reopens
 it

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 54b00e0..50fc9d7 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -168,5 +168,6 @@ class StreamSource(Source, metaclass=ABCMeta):
     def exit(self):
         if self._stream_buffer:
             self._stream_buffer.stop()
+            self._stream_buffer = None  # so that the next reader reopens the source
         else:
             self.close()
-- 
2.43.0


From 7e7f9f3ab7b28977c6cc5fec4a2f41cf27ffd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 15/37] fix: iterating a StreamSource waits for data instead of
 raising AttributeError

---
 stream2py/stream_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 50fc9d7..6895c74 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -71,7 +71,7 @@ class StreamSource(Source, metaclass=ABCMeta):
             _next = self.read()
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
+            elif getattr(self, 'is_stopped', False):
                 return None
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 42766c65faa61198f4105d6a8222bf1899f476cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 16/37] fix: StreamSource makes readers of the given reader_cls

---
 stream2py/stream_source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 6895c74..9289b5f 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -66,6 +66,10 @@ class StreamSource(Source, metaclass=ABCMeta):
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
 
+    @property
+    def buffer_reader_class(self):
+        return self._reader_cls
+
     def __iter__(self):
         while True:
             _next = self.read()
-- 
2.43.0


From 4722c84aa70f490058b85888f7d2d9d28c9e6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 17/37] fix: mk_stream_buffer does not turn missing data into
 items

---
 stream2py/simply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..f09c2b8 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,7 +96,7 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
-            if enumerate_data:
+            if enumerate_data and read_data is not None:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
 
-- 
2.43.0


From 0921a2d2c856ce23fcbce659cf2890a2df40518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 18/37] fix: exit functions are validated

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..600067a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From 09e18d580f3706d02d06fdacc74b6c157ebd2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 19/37] fix: HTTPResponseReader sends the given method and body

---
 stream2py/sources/http.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..f7ecbcb 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -52,6 +52,8 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()
 
         self._url = url
         self._n_bytes_read = 0
@@ -98,10 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
-- 
2.43.0


From a6a058cb30a73aafdfad68d1ce437cc6682c6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 20/37] fix: HTTPResponseReader decodes characters split
 between chunks

---
 stream2py/sources/http.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index f7ecbcb..b1872eb 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import codecs
 import urllib.request
 from typing import Union, Optional
 import time
@@ -101,6 +102,9 @@ class HTTPResponseReader(SourceReader):
 
     def open(self):
         self._response = urllib.request.urlopen(self._request)
+        encoding = self._init_kwargs['encoding']
+        if encoding:
+            self._decoder = codecs.getincrementaldecoder(encoding)()
 
     def close(self):
         if self._response:
@@ -114,7 +118,8 @@ class HTTPResponseReader(SourceReader):
         result = self._response.read(*self.response_read_args)
         timestamp = time.time()
         if encoding:
-            result = result.decode(encoding)
+            # a chunk may end inside a character: the rest comes with the next chunk
+            result = self._decoder.decode(result, final=not result)
         return timestamp, result
 
 
-- 
2.43.0


From d940d1c135317524b1bc514df282ba3f6b3d5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 21/37] fix: HTTPResponseReader counts the bytes it reads

---
 stream2py/sources/http.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index b1872eb..c65374d 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -117,6 +117,7 @@ class HTTPResponseReader(SourceReader):
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
         timestamp = time.time()
+        self._n_bytes_read += len(result)
         if encoding:
             # a chunk may end inside a character: the rest comes with the next chunk
             result = self._decoder.decode(result, final=not result)
-- 
2.43.0


From cdecdbb59480d3133b9e21a15d498b91a53a00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 22/37] fix: source_reader_info is available while the buffer
 is empty

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index c94aad3..b5d210d 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -227,7 +227,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From a4dcd6dfa362d2b5e0138ad2e43279ee5a21ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 23/37] fix: a reopened StreamSource waits for its previous
 session to close

---
 stream2py/stream_source.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 9289b5f..e515941 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -106,9 +106,10 @@ class StreamSource(Source, metaclass=ABCMeta):
 
     def _ensure_buffer(self):
         if not self._stream_buffer:
-            stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
-            stream_buffer.start()
-            self._stream_buffer = stream_buffer
+            self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if self._open_readers <= 0:
+            # also reopens a closed source, waiting for its previous session to end
+            self._stream_buffer.start()
 
     def _handle_reader_open(self):
         self._open_readers += 1
@@ -172,6 +173,5 @@ class StreamSource(Source, metaclass=ABCMeta):
     def exit(self):
         if self._stream_buffer:
             self._stream_buffer.stop()
-            self._stream_buffer = None  # so that the next reader reopens the source
         else:
             self.close()
-- 
2.43.0


From fed6d686a659467ae3fddf41de225d0e1c491c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 24/37] fix: readers of a StreamSource can be opened and closed
 by different threads

---
 stream2py/stream_source.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index e515941..a56ade1 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -4,6 +4,7 @@ as next(), range(), head(), tail().  Each BufferReader instance has it's own cur
 what data was last seen."""
 
 from abc import ABCMeta, abstractmethod
+import threading
 import time
 from typing import Optional, Union
 
@@ -104,6 +105,12 @@ class StreamSource(Source, metaclass=ABCMeta):
         )
         return self
 
+    @property
+    def _readers_lock(self):
+        """Readers may be opened and closed by different threads."""
+        # setdefault is atomic, and subclasses need not call __init__
+        return self.__dict__.setdefault('_readers_lock_', threading.RLock())
+
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
@@ -115,9 +122,10 @@ class StreamSource(Source, metaclass=ABCMeta):
         self._open_readers += 1
 
     def _handle_reader_closed(self):
-        self._open_readers -= 1
-        if self._open_readers <= 0:
-            self.exit()
+        with self._readers_lock:
+            self._open_readers -= 1
+            if self._open_readers <= 0:
+                self.exit()
 
     def open_reader(self, read_size=1, strict_n=False, ignore_no_item_found=False):
         """Instantiates a reader.
@@ -128,13 +136,14 @@ class StreamSource(Source, metaclass=ABCMeta):
         :param ignore_no_item_found: if True, by default return None when no next item
             instead of raising exception during a read
         """
-        self._ensure_buffer()
-        new_reader = self._stream_buffer.mk_reader(
-            read_size=read_size,
-            strict_n=strict_n,
-            ignore_no_item_found=ignore_no_item_found,
-        )
-        self._handle_reader_open()
+        with self._readers_lock:
+            self._ensure_buffer()
+            new_reader = self._stream_buffer.mk_reader(
+                read_size=read_size,
+                strict_n=strict_n,
+                ignore_no_item_found=ignore_no_item_found,
+            )
+            self._handle_reader_open()
         new_reader.open()
         new_reader.onclose = self._handle_reader_closed
         return new_reader
-- 
2.43.0


From 603d26d739c189bf2998db83b1fc0d4cb8e050d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 25/37] fix: StreamSource.get_timestamp does not raise
 AttributeError

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index a56ade1..aaf18a6 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -63,6 +63,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     _reader_cls = BufferReader
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
+    timestamp_seconds_to_unit_conversion = timestamp_seconds_to_unit_conversion
 
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
-- 
2.43.0


From 2badcfd95b0b52b8b04654e53add8c44757d5abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 26/37] fix: ContextualizeCall keeps its own functions when
 func has attributes of the same name

---
 stream2py/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 600067a..1cf1d82 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -125,12 +125,13 @@ class ContextualizeCall:
             f'Not a valid exit function (should be a callable with at least one arg or '
             f'varadic args): {exit_func}',
         )
+        # wrapping self with attributes of func (signature, name, etc.)
+        # before the assignments: func could have attributes with the same names
+        wraps(func)(self)
         # assignment
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
 
     def __call__(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From 101b78a598d9ddfc9e49fd53c593bb496961ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 27/37] fix: close a source whose info failed after it was
 opened

---
 stream2py/stream_buffer.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index b5d210d..46798fe 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -273,10 +273,13 @@ class StreamBuffer:
         finally:
             if not self._stop_event.is_set():
                 self._stop_event.set()
-            try:
-                self.source_reader.close()
-            except Exception as e:
-                logger.error(e)
+            self._close()
+
+    def _close(self):
+        try:
+            self.source_reader.close()
+        except Exception as e:
+            logger.error(e)
 
     def _set_read_to_buffer_thread_and_source_buffer(self):
         """Initialize source and buffer
@@ -297,6 +300,13 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
+        try:
+            self._set_source_buffer()
+        except BaseException:
+            self._close()  # open, but nothing is going to read and close it
+            raise
+
+    def _set_source_buffer(self):
         self.source_buffer = _SourceBuffer(
             source_reader_info=self.source_reader.info,
             stop_event=self._stop_event,
-- 
2.43.0


From e56e3a683b32db77dac8297372c8deca1be6e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 28/37] fix: a reader attached to a stream gets that stream's
 source info

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 46798fe..3cc808b 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -76,6 +76,7 @@ class _SourceBuffer:
     def attach_reader(self, reader):
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
+        reader._source_reader_info = self._source_reader_info
 
 
 class StreamBuffer:
-- 
2.43.0


From ef77a3d817e33cb23a5717a2fcdb6bd1bb2fc6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 29/37] fix: copies, cleared and resized sorted containers
 without a key can be pickled

---
 stream2py/utility/sorted_collection.py | 4 ++--
 stream2py/utility/sorted_deque.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4a71064..c3da039 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -97,10 +97,10 @@ class SortedCollection(object):
     key = property(_getkey, _setkey, _delkey, 'key function')
 
     def clear(self):
-        self.__init__([], self._key)
+        self.__init__([], self._given_key)
 
     def copy(self):
-        return self.__class__(self, self._key)
+        return self.__class__(self, self._given_key)
 
     def __len__(self):
         return len(self._items)
diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index e454d70..d317a3a 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -41,7 +41,7 @@ class SortedDeque(SortedCollection):
 
     def _setmaxlen(self, maxlen):
         if maxlen is not self._maxlen:
-            self.__init__(self._items, key=self._key, maxlen=maxlen)
+            self.__init__(self._items, key=self._given_key, maxlen=maxlen)
 
     def _delmaxlen(self):
         self._setmaxlen(None)
@@ -57,10 +57,10 @@ class SortedDeque(SortedCollection):
     )
 
     def clear(self):
-        self.__init__([], self._key, self._maxlen)
+        self.__init__([], self._given_key, self._maxlen)
 
     def copy(self):
-        return self.__class__(self, self._key, self._maxlen)
+        return self.__class__(self, self._given_key, self._maxlen)
 
     def __repr__(self):
         return '%s(%r, key=%s, maxlen=%s)' % (
-- 
2.43.0


From 18502208a69f26d3af517dce6e90dfecdccd089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 30/37] fix: a reader that cannot be made or opened does not
 leave the source open

---
 stream2py/stream_source.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index aaf18a6..e022f75 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -139,13 +139,17 @@ class StreamSource(Source, metaclass=ABCMeta):
         """
         with self._readers_lock:
             self._ensure_buffer()
-            new_reader = self._stream_buffer.mk_reader(
-                read_size=read_size,
-                strict_n=strict_n,
-                ignore_no_item_found=ignore_no_item_found,
-            )
             self._handle_reader_open()
-        new_reader.open()
+            try:
+                new_reader = self._stream_buffer.mk_reader(
+                    read_size=read_size,
+                    strict_n=strict_n,
+                    ignore_no_item_found=ignore_no_item_found,
+                )
+                new_reader.open()
+            except BaseException:
+                self._handle_reader_closed()  # nobody else could close it
+                raise
         new_reader.onclose = self._handle_reader_closed
         return new_reader
 
-- 
2.43.0


From 267bc6e9af88fa62f3a0e79c8b6ee621873d4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 31/37] fix: a ContextualizeCall gives the current attributes
 of its func, not those at the time of wrapping

---
 stream2py/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 1cf1d82..534d7c9 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -126,8 +126,9 @@ class ContextualizeCall:
             f'varadic args): {exit_func}',
         )
         # wrapping self with attributes of func (signature, name, etc.)
-        # before the assignments: func could have attributes with the same names
-        wraps(func)(self)
+        # The other attributes are delegated (see __getattr__), so that they are always
+        # what they are in func
+        wraps(func, updated=())(self)
         # assignment
         self.func = func
         self.enter_func = enter_func
-- 
2.43.0


From 3e022e8cb604a0426c14cac07e0e0ae146e37b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 32/37] fix: next(stream) failed or repeated items when another
 thread stopped the stream

---
 stream2py/stream_buffer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 3cc808b..f92c0b5 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -150,7 +150,7 @@ class StreamBuffer:
         self._stop_event = None
         self.source_buffer = None
         # start_lock used to lock mk_reader while source is still starting up
-        self.start_lock = threading.Lock()
+        self.start_lock = threading.RLock()
         self._next_reader = None
         self._read_to_buffer_thread = None
 
@@ -159,9 +159,12 @@ class StreamBuffer:
         yield from iter(reader)
 
     def __next__(self):
-        if self._next_reader is None:
-            self._next_reader = self.mk_reader()
-        return next(self._next_reader)
+        # the session must not change between the look at the reader and its making
+        with self.start_lock:
+            if self._next_reader is None:
+                self._next_reader = self.mk_reader()
+            reader = self._next_reader
+        return next(reader)
 
     def drop(self, n=1):
         """Manually drop items from buffer when auto_drop is False
@@ -192,7 +195,6 @@ class StreamBuffer:
         """Stop reading and close source_reader"""
         self._stop_event.set()
         time.sleep(1)
-        self._next_reader = None
 
     def mk_reader(self, **read_kwargs) -> BufferReader:
         """ Makes a BufferReader instance for the currently running  StreamBuffer.
-- 
2.43.0


From 38b9cde9d137e75d315df88a94e838054cf1b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:55 +0000
Subject: [PATCH 33/37] fix: source_reader_info raised AttributeError while
 another thread restarted the stream

---
 stream2py/stream_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index f92c0b5..a217fb0 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -230,8 +230,9 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer is not None:
-            return self.source_buffer.source_reader_info
+        source_buffer = self.source_buffer  # another thread may start the stream again
+        if source_buffer is not None:
+            return source_buffer.source_reader_info
         return None
 
     @property
-- 
2.43.0


From 449289d0186ae749569d3abdfcc650987967382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 34/37] fix: a new reader failed, or started past the head,
 when keys do not raise TypeError compared with None

---
 stream2py/buffer_reader.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 71e6a11..7c5e727 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -309,17 +309,15 @@ class BufferReader:
         with self._buffer.reader_lock() as reader:
             if only_new_items:
                 try:
-                    item = reader.find_last_gt(self.last_key)
+                    # keys need not know how to compare with None
+                    if self.last_key is None and len(reader) > 0:
+                        item = reader[-1]  # first time reading a value from buffer
+                    else:
+                        item = reader.find_last_gt(self.last_key)
                 except ValueError as e:  # ValueError: No item found with key above: self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-                except TypeError as e:
-                    # TypeError: '>' not supported between instances of type(key) and 'NoneType'
-                    if self.last_item is None:  # first time reading a value from buffer
-                        item = reader[-1]
-                    else:
-                        raise e
             else:
                 try:
                     item = reader[-1]
@@ -397,18 +395,16 @@ class BufferReader:
 
         with self._buffer.reader_lock() as reader:
             try:
-                next_item = reader.find_gt(self.last_key)
+                # keys need not know how to compare with None
+                if self.last_key is None and len(reader) > 0:
+                    next_item = reader[0]  # first time reading a value from buffer
+                else:
+                    next_item = reader.find_gt(self.last_key)
             except ValueError as e:  # ValueError: No item found with key above:
                 # self.last_key
                 if ignore_no_item_found:
                     return None
                 raise e
-            except TypeError as e:
-                # TypeError: '<' not supported between instances of 'NoneType' and type(key)
-                if self.last_item is None:  # first time reading a value from buffer
-                    next_item = reader[0]
-                else:
-                    raise e
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-- 
2.43.0


From a9d2ccf6b744a8052345329a0d07d0b94e3313d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:42 +0000
Subject: [PATCH 35/37] fix: a restart deadlocked when the source asked its
 stream whether it runs, or made a reader, while ending

---
 stream2py/stream_buffer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index a217fb0..3426905 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 __all__ = ['StreamBuffer']
 
+from contextlib import nullcontext
 import logging
 import threading
 import time
@@ -160,12 +161,20 @@ class StreamBuffer:
 
     def __next__(self):
         # the session must not change between the look at the reader and its making
-        with self.start_lock:
+        with self._started():
             if self._next_reader is None:
                 self._next_reader = self.mk_reader()
             reader = self._next_reader
         return next(reader)
 
+    def _started(self):
+        """Context in which no start is going on.
+        The thread that reads the source does not wait for it: start would be waiting for
+        that thread, and does not change anything before it has ended."""
+        if threading.current_thread() is self._read_to_buffer_thread:
+            return nullcontext()
+        return self.start_lock
+
     def drop(self, n=1):
         """Manually drop items from buffer when auto_drop is False
 
@@ -203,7 +212,7 @@ class StreamBuffer:
         :return: BufferReader instance
         :raises StreamNotStartedError: if the StreamBuffer hasn't been started yet
         """
-        with self.start_lock:
+        with self._started():
             if not isinstance(self.source_buffer, _SourceBuffer):
                 raise StreamNotStartedError(
                     'StreamBuffer must be started before creating readers. '
@@ -216,7 +225,7 @@ class StreamBuffer:
 
         :raises StreamNotStartedError: if the StreamBuffer hasn't been started yet
         """
-        with self.start_lock:
+        with self._started():
             if not isinstance(self.source_buffer, _SourceBuffer):
                 raise StreamNotStartedError(
                     'StreamBuffer must be started before attaching readers. '
@@ -241,7 +250,7 @@ class StreamBuffer:
 
         :return: bool
         """
-        with self.start_lock:
+        with self._started():
             return self._stop_event is not None and not self._stop_event.is_set()
 
     @property
-- 
2.43.0


From f9f10d358af17addfc79440d0e480e275c7a7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:22 +0000
Subject: [PATCH 36/37] fix: a ContextualizeCall refused to pass on a keyword
 argument named self

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 534d7c9..21c729d 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -134,7 +134,7 @@ class ContextualizeCall:
         self.enter_func = enter_func
         self.exit_func = exit_func
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         return self.func(*args, **kwargs)
 
     def __enter__(self):
-- 
2.43.0


From 0b1cedeacce487dd740c4ac962a68aac66d3ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:23 +0000
Subject: [PATCH 37/37] fix: a stream whose thread could not be started said it
 was running and left its source open

---
 stream2py/stream_buffer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 3426905..9bf09ad 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -198,7 +198,13 @@ class StreamBuffer:
             except BaseException:
                 self._stop_event.set()
                 raise
-            self._read_to_buffer_thread.start()
+            try:
+                self._read_to_buffer_thread.start()
+            except RuntimeError:  # can't start new thread
+                self._stop_event.set()
+                self.source_buffer = None
+                self._close()  # open, but nothing is going to read and close it
+                raise
 
     def stop(self):
         """Stop reading and close source_reader"""
-- 
2.43.0

