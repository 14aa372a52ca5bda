From 0fd84f0cb4eee7829246ea11f94e46dc8c821934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 01/43] fix: refuse an element size that does not fit the
 requested length

encodeSize() with an explicit length silently merged the value's high bits
into the length prefix (e.g. 200 in 1 byte decoded as 72), or produced the
reserved 'unknown size' pattern (127 in 1 byte).
---
 ebmlite/encoding.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..5f62daf 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,12 +87,18 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    explicit = not (length is None or length == -1)
+    length = length if explicit else getLength(val)
     try:
+        # The largest value of each length (all bits 1) means 'unknown' size.
+        if explicit and not (length > 0 and 0 <= val < 2**(7*length) - 1):
+            raise ValueError("Element size %s does not fit in length %s" %
+                             (val, length))
         prefix = LENGTH_PREFIXES[length]
         return encodeUInt(val | prefix, length)
     except (IndexError, TypeError, ValueError):
-        raise ValueError("Cannot encode element size %s" % length)
+        raise ValueError("Cannot encode element size %s to length %s" %
+                         (val, length))
 
 
 # ==============================================================================
-- 
2.43.0


From 7ca2c9aea52d58e79848807808e55ea8b93efd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 02/43] fix: encode lists of name/value tuples as documented

Document.encode() and MasterElement.encode() document a list of two-item
name/value tuples as input, but both raised on it.
---
 ebmlite/core.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..e90a8c2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -228,6 +228,12 @@ class Element(object):
         return encoding.encodeBinary(data, length)
 
 
+    @classmethod
+    def _isMultiple(cls, value: Any) -> bool:
+        """ Is the given data the values of several elements? """
+        return isinstance(value, (list, tuple))
+
+
     @classmethod
     def encode(cls,
                value: Any,
@@ -253,7 +259,7 @@ class Element(object):
         if infinite and not issubclass(cls, MasterElement):
             raise ValueError("Only Master elements can have 'infinite' lengths")
         length = cls.length if length is None else length
-        if isinstance(value, (list, tuple)):
+        if cls._isMultiple(value):
             if not cls.multiple:
                 raise ValueError("Multiple %s elements per parent not permitted"
                                  % cls.name)
@@ -719,6 +725,14 @@ class MasterElement(Element):
 
         return result
 
+    @classmethod
+    def _isMultiple(cls, value: Any) -> bool:
+        """ Is the given data the contents of several elements? Note that a
+            list of name/value tuples is the contents of one element.
+        """
+        return (isinstance(value, (list, tuple))
+                and not (len(value) > 0 and isinstance(value[0], tuple)))
+
     @classmethod
     def encode(cls, 
                data: Union[Dict[str, Any], List[Tuple[str, Any]]], 
@@ -1015,6 +1029,8 @@ class Document(MasterElement):
                 raise TypeError('Cannot encode multiple Documents')
             else:
                 for v in data:
+                    # Items are either name/value pairs or dictionaries
+                    v = [v] if isinstance(v, tuple) else v
                     stream.write(cls.encodePayload(v))
         else:
             stream.write(cls.encodePayload(data))
-- 
2.43.0


From dab4bb1301c246dc0dff5f0ba999b76537ab3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 03/43] fix: refuse a list of lists for a non-repeatable master
 element

Other forms of multiple values for an element that may not appear more than
once were refused; a list of lists was encoded as several elements.
---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index e90a8c2..cec8c70 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -759,6 +759,9 @@ class MasterElement(Element):
         if isinstance(data, list) and len(data) > 0 and isinstance(data[0], list):
             # List of lists: special case for 'master' elements.
             # Encode as multiple 'master' elements.
+            if not cls.multiple:
+                raise ValueError("Multiple %s elements per parent not permitted"
+                                 % cls.name)
             result = bytearray()
             for v in data:
                 result.extend(cls.encode(v, length=length,
-- 
2.43.0


From 5eddef4b8c664f02d70f395e7db04f8da4543e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 04/43] fix: never declare a size other than the payload's when
 encoding

An explicit length for a 'master' element was written as its size, whatever
the actual size of its contents, corrupting everything after it.
---
 ebmlite/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index cec8c70..f0068dd 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -268,8 +268,12 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else (length or len(payload))
+        if length is not None and length != len(payload):
+            # Can occur with 'master' elements, which aren't padded.
+            raise ValueError("Cannot encode %s payload of length %d to length "
+                             "%d" % (cls.name, len(payload), length))
         encId = encoding.encodeId(cls.id)
+        length = None if infinite else len(payload)
         return encId + encoding.encodeSize(length, lengthSize) + payload
 
     def dump(self):
-- 
2.43.0


From ba16fbfa10cb37dc16a4c1dd936f6df9370962a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 05/43] fix: write a decodable 'unknown' size for infinite
 elements of any lengthSize

With lengthSize greater than 1, the size was written as that many 0xFF bytes,
which decode as a 1 byte 'unknown' size followed by garbage.
---
 ebmlite/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index f0068dd..14f1056 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -273,8 +273,16 @@ class Element(object):
             raise ValueError("Cannot encode %s payload of length %d to length "
                              "%d" % (cls.name, len(payload), length))
         encId = encoding.encodeId(cls.id)
-        length = None if infinite else len(payload)
-        return encId + encoding.encodeSize(length, lengthSize) + payload
+        if not infinite:
+            encSize = encoding.encodeSize(len(payload), lengthSize)
+        elif lengthSize is None or lengthSize == -1:
+            encSize = encoding.encodeSize(None)
+        elif 1 <= lengthSize <= 8:
+            # 'Unknown' size: the length prefix, followed by all bits 1.
+            encSize = encoding.encodeUInt(2**(7*lengthSize + 1) - 1, lengthSize)
+        else:
+            raise ValueError("Cannot encode element size of length %s" % lengthSize)
+        return encId + encSize + payload
 
     def dump(self):
         """ Dump this element's value as nested dictionaries, keyed by
-- 
2.43.0


From 96c5530121f8931e75c632a47ad91c42526f0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/43] fix: Base64Codec(cols=0) writes one continuous block,
 as documented

It raised a ValueError when encoding.
---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From 8702756d3a66a58565e4da78917bd33d7cfac07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 07/43] fix: ThreadAwareFile.close() and cleanup() no longer
 fail

cleanup() removed items from the dictionary it was iterating over, so closing
the file always raised a RuntimeError.
---
 ebmlite/threaded_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..8be2b85 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -15,7 +15,7 @@ __all__ = ['ThreadAwareFile']
 
 import io
 import platform
-from threading import currentThread, Event
+from threading import currentThread, Event, Lock
 from typing import BinaryIO, TextIO, Union
 
 
@@ -62,6 +62,7 @@ class ThreadAwareFile(io.FileIO):
         
         self._ready = Event()  # NOT a lock; some things block, others wait
         self._ready.set()
+        self._cleanupLock = Lock()
 
         self.threads = {}
         
@@ -137,9 +138,12 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
-                if self.threads[i].closed:
-                    del self.threads[i]
+            # Only one thread at a time may remove streams, so none can remove
+            # the new stream of a thread that has since reopened the file.
+            with self._cleanupLock:
+                for i, fp in list(self.threads.items()):
+                    if fp.closed:
+                        del self.threads[i]
         finally:
             self._ready.set()
 
-- 
2.43.0


From 513e7fff928c9379f065100fbcff9848d81efd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 08/43] fix: ThreadAwareFile refuses every writing mode

A mode given as a keyword argument was not checked ('w' truncated the file),
and neither was the exclusive creation mode 'x'.
---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 8be2b85..7822de8 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if 'a' in mode or 'w' in mode or 'x' in mode or '+' in mode:
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From 2ae9ba9381168d92a7cea80ad38476c31f5915b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 09/43] fix: a new thread never inherits the stream of a
 finished one

ThreadAwareFile kept streams by thread ID, which the system reuses: a thread
started after another had finished continued at the position it had left.
---
 ebmlite/threaded_file.py | 48 +++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 7822de8..cefdf31 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -17,6 +17,7 @@ import io
 import platform
 from threading import currentThread, Event, Lock
 from typing import BinaryIO, TextIO, Union
+from weakref import ref
 
 
 class ThreadAwareFile(io.FileIO):
@@ -62,10 +63,14 @@ class ThreadAwareFile(io.FileIO):
         
         self._ready = Event()  # NOT a lock; some things block, others wait
         self._ready.set()
-        self._cleanupLock = Lock()
+        self._lock = Lock()
 
         self.threads = {}
-        
+
+        # The `Thread` to which each stream belongs (as a weak reference), also
+        # keyed by thread ID. The ID of a finished thread may get reused.
+        self._owners = {}
+
         if newFile is True:
             # Getting the stream for the thread will open the file.
             self.getThreadStream()
@@ -99,22 +104,37 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        thread = currentThread()
+        f._owners[thread.ident] = ref(thread)
+        f.threads[thread.ident] = fileStream
         return f
 
 
+    def _findThreadStream(self) -> Union[TextIO, BinaryIO, None]:
+        """ Get the existing file stream of the current thread, if any. One
+            of an already finished thread with the same ID doesn't count.
+        """
+        thread = currentThread()
+        owner = self._owners.get(thread.ident)
+        if owner is not None and owner() is thread:
+            return self.threads.get(thread.ident)
+        return None
+
+
     def getThreadStream(self) -> Union[TextIO, BinaryIO]:
         """ Get (or create) the file stream for the current thread.
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
-        if ident not in self.threads:
+        fp = self._findThreadStream()
+        if fp is None:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            self.threads[ident] = fp
-            return fp
-        return self.threads[ident]
+            thread = currentThread()
+            with self._lock:
+                self._owners[thread.ident] = ref(thread)
+                self.threads[thread.ident] = fp
+        return fp
 
 
     def closeAll(self):
@@ -138,9 +158,9 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            # Only one thread at a time may remove streams, so none can remove
-            # the new stream of a thread that has since reopened the file.
-            with self._cleanupLock:
+            # No stream may be added (or removed by another thread) meanwhile,
+            # lest the new stream of a thread reopening the file is removed.
+            with self._lock:
                 for i, fp in list(self.threads.items()):
                     if fp.closed:
                         del self.threads[i]
@@ -153,10 +173,8 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
-        if ident in self.threads:
-            return self.threads[ident].closed
-        return True
+        fp = self._findThreadStream()
+        return fp is None or fp.closed
 
 
     def close(self):
-- 
2.43.0


From dc4eb123a67e35e3b1e8fef756965968a103d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 10/43] fix: keep non-ASCII text intact when converting to XML

Characters were replaced with XML references before being escaped again by
the XML writer, so text did not survive the conversion to XML and back.
---
 ebmlite/tools/utils.py | 6 +++++-
 ebmlite/util.py        | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..f70f5de 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,5 +33,9 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w')) as out:
+    if binary_output:
+        out = open(output, 'wb')
+    else:
+        out = open(output, 'w', encoding='utf-8')
+    with out:
         yield schema, out
diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..c42b5d4 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -201,7 +201,7 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From 1318a4a9000b173f17f2d4ea44956379248f2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 11/43] fix: convert dates, infinities and NaN from XML

Values of date elements, and floats other than finite numbers, were parsed as
Python literals, which they are not.
---
 ebmlite/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c42b5d4..d0a3639 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -283,7 +284,12 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
-    elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
+    elif issubclass(cls, core.FloatElement):
+        # Note: includes 'inf' and 'nan', which aren't literals
+        val = float(xmlEl.get('value'))
+    elif issubclass(cls, core.IntegerElement):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
         val = cls.dtype(xmlEl.get('value'))
-- 
2.43.0


From d16f484478c96caef31ecd635a37943a1aa1e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 12/43] fix: converting an unknown element from XML no longer
 breaks parsing

xmlElement2ebml() set the ID on the UnknownElement class itself, after which
every unknown element parsed in the process raised an AttributeError.
---
 ebmlite/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d0a3639..36a3ecf 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -250,9 +250,11 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
-        encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # Use a subclass: setting the ID of `UnknownElement` itself would
+        # affect every unknown element parsed afterward.
+        cls = type('UnknownElement', (core.UnknownElement,),
+                   {'id': int(eid, 16)})
+        encId = encoding.encodeId(cls.id)
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From 55dd7537a0b49b69ad2e6b82f560425b8c6f4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 13/43] fix: refuse nested unknown elements in XML when not
 permitted

The 'unknown' argument was not applied to the children of elements.
---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 36a3ecf..a210d63 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -277,7 +277,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From 864ab3f5afd07526d846748c554b9d8bb697ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 14/43] fix: use the sizeLength XML attribute of nested
 elements

Below the root, the attribute's value was not converted to an integer, raising
a TypeError.
---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index a210d63..a3f1b87 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -269,7 +269,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
-- 
2.43.0


From e7abd72e111234c189080a899872bf166a412eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 15/43] fix: never write a 'master' element's size into too
 short a descriptor

When converting from XML, the length of the size descriptor is estimated from
the 'size' attribute and used by nested elements as well, so the actual size
may not fit; it was written corrupted. Lengths that were not specified are now
extended as needed. The contents are buffered, as the length of the descriptor
must be known first; the output no longer needs to be seekable.
---
 ebmlite/util.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index a3f1b87..3b4d9cb 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -215,7 +215,8 @@ def xmlElement2ebml(xmlEl,
                     ebmlFile: BinaryIO,
                     schema: core.Schema,
                     sizeLength: Optional[int] = None,
-                    unknown: bool = True):
+                    unknown: bool = True,
+                    _fixed: bool = True):
     """ Convert an XML element to EBML, recursing if necessary. For converting
         an entire XML document, use `xml2ebml()`.
 
@@ -258,6 +259,9 @@ def xmlElement2ebml(xmlEl,
 
     codec = xmlEl.get('encoding', 'base64')
 
+    # Was the length of the size descriptor specified? If not, it's an estimate.
+    fixed = 'sizeLength' in xmlEl.attrib or (sizeLength is not None and _fixed)
+
     if sizeLength is None:
         sl = xmlEl.get('sizeLength', None)
         if sl is None:
@@ -272,17 +276,15 @@ def xmlElement2ebml(xmlEl,
         sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
-        ebmlFile.write(encId)
-        sizePos = ebmlFile.tell()
-        ebmlFile.write(encoding.encodeSize(None, sl))
-        size = 0
+        payload = BytesIO()
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown)
-        endPos = ebmlFile.tell()
-        ebmlFile.seek(sizePos)
-        ebmlFile.write(encoding.encodeSize(size, sl))
-        ebmlFile.seek(endPos)
-        return len(encId) + (endPos - sizePos)
+            xmlElement2ebml(chEl, payload, schema, sl, unknown, _fixed=fixed)
+        size = payload.tell()
+        if not fixed:
+            sl = max(sl, encoding.getLength(size))
+        encSize = encoding.encodeSize(size, sl)
+        ebmlFile.write(encId + encSize + payload.getvalue())
+        return len(encId) + len(encSize) + size
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
-- 
2.43.0


From ae5fa00326724231addea888e7b47fb25591d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 16/43] fix: convert integer elements of size 0 from XML

An empty payload is a valid encoding of 0, but converting the XML of such an
element (with its size) back to EBML raised a ValueError.
---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 3b4d9cb..08a442f 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -301,6 +301,9 @@ def xmlElement2ebml(xmlEl,
     size = xmlEl.get('size', None)
     if size is not None:
         size = int(size)
+        if size == 0 and issubclass(cls, core.IntegerElement):
+            # An empty payload is a valid zero, but is never written.
+            size = None
     sl = xmlEl.get('sizeLength')
     if sl is not None:
         sl = int(sl)
-- 
2.43.0


From 9946bb4fbcd0c7cad488e29049a2d0ba3d6c0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 17/43] fix: add no second header when the XML root is the EBML
 header itself

Also, writing the header no longer needs the output to be seekable.
---
 ebmlite/util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 08a442f..e0fe1c0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -366,11 +366,12 @@ def xml2ebml(xmlFile,
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
     headers = headers and 'EBML' in schema
-    if headers and 'EBML' not in (el.tag for el in xmlRoot):
-        pos = ebmlFile.tell()
+    if (headers and xmlRoot.tag != 'EBML'
+            and 'EBML' not in (el.tag for el in xmlRoot)):
         cls = schema.document
-        ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-        numBytes = ebmlFile.tell() - pos
+        encHeaders = cls.encodePayload(cls._createHeaders())
+        ebmlFile.write(encHeaders)
+        numBytes = len(encHeaders)
     else:
         numBytes = 0
 
-- 
2.43.0


From 5513f0a38528e45d68deac1c98933483b332b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 18/43] fix: toXml() of documents opened by Path, or with a
 schema from a string

The XML attributes were set to a Path, or to None, which cannot be written.
---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e0fe1c0..84cb047 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -176,9 +176,9 @@ def toXml(el: core.Element,
     else:
         xmlEl = ET.SubElement(parent, elname)
     if isinstance(el, core.Document):
-        xmlEl.set('source', el.filename)
+        xmlEl.set('source', str(el.filename or ''))
         xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        xmlEl.set('schemaFile', el.schema.filename or '')
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From 133140a8b440f4260cf90b8c8ec20d3a49fc1a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 19/43] fix: open documents and schemata from unnamed temporary
 files

The name of such a file object is its file descriptor (an integer), which was
processed as if it were a path.
---
 ebmlite/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 14f1056..37b9b3f 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -854,9 +854,9 @@ class Document(MasterElement):
         self.id = None  # Not applicable to Documents.
         self.offset = self.payloadOffset = self.stream.tell()
 
-        try:
-            self.filename = stream.name
-        except AttributeError:
+        self.filename = getattr(stream, 'name', "")
+        if not isinstance(self.filename, (str, bytes, Path)):
+            # e.g., the file descriptor of an unnamed temporary file
             self.filename = ""
 
         if name is None:
@@ -1129,7 +1129,7 @@ class Schema(object):
 
         if isinstance(source, (str, Path)):
             self.filename = os.path.realpath(source)
-        elif hasattr(source, "name"):
+        elif isinstance(getattr(source, "name", None), (str, Path)):
             self.filename = os.path.realpath(source.name)
 
         self.elements = {}    # Element types, keyed by ID
-- 
2.43.0


From dc94be2e7045d044e62e9242877da0767120111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 20/43] fix: loadXml() accepts the filename of a schema, as
 documented

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 84cb047..fccd58c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -407,6 +407,9 @@ def loadXml(xmlFile,
             automatically-generated temporary file.
         :return The root node of the specified EBML file.
     """
+    if not isinstance(schema, core.Schema):
+        schema = core.loadSchema(schema)
+
     if ebmlFile == ":memory:":
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From 36e8bb34fae157e58b31e8d48ff63880603ceea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 21/43] fix: createID() includes the maximum ID of a class or
 range

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index fccd58c..d7fc7aa 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -74,7 +74,7 @@ def createID(schema: core.Schema,
     exclude = set(exclude).union(schema.elements.keys())
 
     result = []
-    for i in (x for x in range(*idrange) if x not in exclude):
+    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
         if len(result) == count:
             break
         result.append(i)
-- 
2.43.0


From b66e75877082358416d0891e16fd82b126deed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 22/43] fix: printSchemata() leaves the list of paths it is
 given unchanged

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d7fc7aa..e06227f 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -511,7 +511,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
 
     try:
         if paths:
-            paths.extend(core.SCHEMA_PATH)
+            paths = [*paths, *core.SCHEMA_PATH]
         else:
             paths = core.SCHEMA_PATH
         schemata = core.listSchemata(*paths, absolute=absolute)
-- 
2.43.0


From 1192aebeaf46ddfcca64f0f8c0978a49bf7c1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 23/43] fix: MasterElement.gc() counts its own cached value
 when not recursing

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 37b9b3f..ecd8260 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -706,8 +706,9 @@ class MasterElement(Element):
         """
         cleared = 0
         if self._value is not None:
+            cleared = 1
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared += sum(ch.gc(recurse) for ch in self._value)
             self._value = None
         return cleared
 
-- 
2.43.0


From 2f4cea38d97fbe614a5cf7dce3f7c5ef85236bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 24/43] fix: accept every Boolean spelling for the schema
 attribute 'global'

Unlike the other Boolean attributes, 'true' was silently ignored.
---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index ecd8260..073c5c9 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1317,7 +1317,7 @@ class Schema(object):
             multiple = _getBool(attribs, 'multiple', False)
             precache = _getBool(attribs, 'precache', baseClass.precache)
             length = _getInt(attribs, 'length', None)
-            isGlobal = _getInt(attribs, 'global', None)
+            isGlobal = _getBool(attribs, 'global', None)
 
             if isGlobal is None:
                 # Element 'level'. The old schema format used level to define
-- 
2.43.0


From f37e782a67333bab70e8a01cd36dba2971e2e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 25/43] fix: schemata without a 'DocType' default take their
 file's base name

As documented. Without an explicit name, they could not be loaded at all.
---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 073c5c9..490d5c6 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1163,8 +1163,10 @@ class Schema(object):
             self.elements[el.id] = void
             self.elementsByName['Void'] = void
 
-        # Schema name. Defaults to the schema's default EBML 'DocType'
-        self.name = name or self.type
+        # Schema name. Defaults to the schema's default EBML 'DocType', or the
+        # base name of the file.
+        self.name = (name or self.type or
+                     os.path.splitext(os.path.basename(self.filename or ''))[0])
 
         # Create the schema's Document subclass.
         self.document = type('%sDocument' % self.name.title(), (Document,),
-- 
2.43.0


From 6627e23a07237e10a88295d724c17745dfe371eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 26/43] fix: command-line tools can write binary output to
 standard output

xml2ebml, and ebml2xml with --single, failed with a TypeError unless an output
file was given.
---
 ebmlite/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index f70f5de..873d9bd 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -27,7 +27,7 @@ def load_files(args, binary_output=False):
         errPrint("Error loading schema: %s\n" % err)
 
     if not args.output:
-        yield schema, sys.stdout
+        yield schema, (sys.stdout.buffer if binary_output else sys.stdout)
         return
 
     output = os.path.realpath(os.path.expanduser(args.output))
-- 
2.43.0


From 77fe0863e02bf80b5eb4e1405c759dba03b84817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 27/43] fix: a fixed length never cuts a Unicode character in
 half

---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 490d5c6..9d5b8e7 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -424,6 +424,9 @@ class UnicodeElement(StringElement):
     @classmethod
     def encodePayload(cls, data: str, length: int = None) -> bytes:
         """ Type-specific payload encoder for Unicode string elements. """
+        if length is not None and isinstance(data, str):
+            # Never cut a multi-byte character in half; it couldn't be read.
+            data = data.encode('utf_8')[:length].decode('utf_8', 'ignore')
         return encoding.encodeUnicode(data, length)
 
 
-- 
2.43.0


From e015e20eac928e3ff38683361d805cb7189a567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 28/43] fix: Schema.verify() also verifies the EBML header

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 9d5b8e7..f04ecd7 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1507,7 +1507,8 @@ class Schema(object):
 
             return True
 
-        return _crawl(self.loads(data))
+        # The header gets verified, too
+        return _crawl(self.load(BytesIO(data), headers=True))
 
 
 # ==============================================================================
-- 
2.43.0


From 29d47648c7a64e1baf5fbf01aa4430ed07f39207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 29/43] fix: refuse redefining an element as its type's base
 type

---
 ebmlite/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index f04ecd7..d82396b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1288,7 +1288,10 @@ class Schema(object):
             ename = oldEl.name
             eid = oldEl.id
 
-            if not issubclass(self.elements[eid], baseClass):
+            # Note: some element types are subclasses of others.
+            oldBase = next((b for b in oldEl.__mro__
+                            if b is baseClass or b in self.BASE_CLASSES.values()), None)
+            if oldBase is not baseClass:
                 raise TypeError('%s %r (ID 0x%02X) redefined as %s' %
                                 (oldEl.__name__, ename, eid, baseClass.__name__))
 
-- 
2.43.0


From e359ecd01d6e19485a3c22f8a91945d173ea4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 30/43] fix: schemata with elements of different types are not
 equal

---
 ebmlite/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d82396b..16ad6ef 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1371,11 +1371,14 @@ class Schema(object):
             return object.__repr__(self)
 
     def __eq__(self, other) -> bool:
-        """ Equality check. Schemata are considered equal if the attributes of
-            their elements match.
+        """ Equality check. Schemata are considered equal if the types and the
+            attributes of their elements match.
         """
         try:
-            return self is other or self.elementInfo == other.elementInfo
+            return self is other or (
+                self.elementInfo == other.elementInfo
+                and all(el.__bases__ == other.elements[eid].__bases__
+                        for eid, el in self.elements.items()))
         except AttributeError:
             return False
 
-- 
2.43.0


From 71ce346e153ccaba83ca10a8d45551c31ff87f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 31/43] fix: listSchemata(absolute=False) includes paths given
 as modules

---
 ebmlite/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 16ad6ef..d24cb3e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1585,7 +1585,12 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     # Casting to string is py35 fix. Remove in future.
                     xml = ET.parse(str(p))
                     if xml.getroot().tag == 'Schema':
-                        value = p if absolute else Path(path) / p.name
+                        if absolute:
+                            value = p
+                        elif isinstance(path, types.ModuleType):
+                            value = Path('{%s}' % path.__name__) / p.name
+                        else:
+                            value = Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
                 except (ET.ParseError, IOError, TypeError):
                     continue
-- 
2.43.0


From 4eb1d024585084b2a7f1211349d500190d855191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 32/43] fix: loading a schema file by a relative name finds the
 loaded schema

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d24cb3e..67ccad3 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1644,7 +1644,8 @@ def loadSchema(filename: Union[str, Path],
                     continue
 
     if hasattr(filename, 'expanduser'):
-        filename = filename.expanduser().absolute()
+        # Different names of the same file (relative, etc.) become the same
+        filename = filename.expanduser().resolve()
 
     if str(filename) in SCHEMATA and not reload:
         return SCHEMATA[str(filename)]
-- 
2.43.0


From c79cede1f2720940be026ea2c590975b4cf5496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 33/43] fix: a name under which a loaded schema was found is
 remembered

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 67ccad3..ededa91 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1648,7 +1648,8 @@ def loadSchema(filename: Union[str, Path],
         filename = filename.expanduser().resolve()
 
     if str(filename) in SCHEMATA and not reload:
-        return SCHEMATA[str(filename)]
+        SCHEMATA[origName] = SCHEMATA[str(filename)]
+        return SCHEMATA[origName]
 
     if not filename.is_file():
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
-- 
2.43.0


From e7992e1932e4e470b2ea82092a1e0354d6c94b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 34/43] fix: reloading a schema applies to all names of its
 file

---
 ebmlite/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index ededa91..af76081 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1657,6 +1657,12 @@ def loadSchema(filename: Union[str, Path],
     with filename.open() as fs:
         schema = Schema(fs, **kwargs)
 
+    # After a reload, the file's other names mean the new schema, too
+    previous = SCHEMATA.get(str(filename))
+    for name, loaded in SCHEMATA.items():
+        if loaded is previous:
+            SCHEMATA[name] = schema
+
     SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
     return schema
 
-- 
2.43.0


From f3f54ca626dc961413a5807abc7a0921882a61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 35/43] fix: raw data of a document whose size is not known yet

---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index af76081..a392a5b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -195,14 +195,16 @@ class Element(object):
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
         """
+        size = self.size  # Note: getting the size may move the stream's position
         self.stream.seek(self.offset)
-        return self.stream.read(self.size + (self.payloadOffset - self.offset))
+        return self.stream.read(size + (self.payloadOffset - self.offset))
 
     def getRawValue(self) -> bytes:
         """ Get the raw binary of the element's value.
         """
+        size = self.size  # Note: getting the size may move the stream's position
         self.stream.seek(self.payloadOffset)
-        return self.stream.read(self.size)
+        return self.stream.read(size)
 
     # ==========================================================================
     # Caching (experimental)
-- 
2.43.0


From 0ccca9e687e15258e0c711b0cb0e7986a9cc95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 36/43] fix: elements unknown at the top level do not end a
 document of unknown size

---
 ebmlite/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index a392a5b..8b5b95a 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -918,6 +918,12 @@ class Document(MasterElement):
         if self._ownsStream:
             self.stream.close()
 
+    @classmethod
+    def _isValidChild(cls, elId: int) -> bool:
+        """ A Document extends to the end of its stream; no element ends it.
+        """
+        return True
+
     def __len__(self) -> int:
         """ x.__len__() <==> len(x)
             Not recommended for huge documents.
-- 
2.43.0


From 61098a8a3ccde31a2b406b36be2dfdd40abfbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 37/43] fix: text elements without a value in XML are empty,
 not 'None'

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e06227f..ca4251b 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -296,7 +296,7 @@ def xmlElement2ebml(xmlEl,
     elif issubclass(cls, core.IntegerElement):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-        val = cls.dtype(xmlEl.get('value'))
+        val = cls.dtype(xmlEl.get('value', ''))
 
     size = xmlEl.get('size', None)
     if size is not None:
-- 
2.43.0


From 02e7b8db626193b6aa4d119644fc2c4faf668a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 38/43] fix: XML elements with something other than an EBML ID
 are refused

---
 ebmlite/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index ca4251b..2bce015 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -256,6 +256,8 @@ def xmlElement2ebml(xmlEl,
         cls = type('UnknownElement', (core.UnknownElement,),
                    {'id': int(eid, 16)})
         encId = encoding.encodeId(cls.id)
+        if decoding.decodeIDLength(encId[0])[0] != len(encId):
+            raise ValueError("Not an EBML ID: %s" % eid)
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From 30253859d8e794676b4f1f769077a9087dba51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 39/43] fix: the command-line tools overwrote their own input
 if it was given as the output

---
 ebmlite/tools/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 873d9bd..2caca48 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,6 +33,9 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
+    for source in (args.input, schema.filename):
+        if os.path.exists(output) and os.path.exists(source) and os.path.samefile(output, source):
+            errPrint("Error: Output file is one of the inputs: %s" % args.output)
     if binary_output:
         out = open(output, 'wb')
     else:
-- 
2.43.0


From c7ea5cc8558216c5aea2eb50a9052d4b856b468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 40/43] fix: using a ThreadAwareFile as a context manager gave
 a plain file

`with ThreadAwareFile(...) as f` bound the calling thread's own stream, so
threads sharing `f` disturbed each other's position.
---
 ebmlite/threaded_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index cefdf31..cfa1df7 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -246,7 +246,9 @@ class ThreadAwareFile(io.FileIO):
                       self.__class__.__name__)
 
     def __enter__(self, *args, **kwargs):
-        return self.getThreadStream().__enter__()
+        # Note: not the thread's own stream, which other threads can't share.
+        self.getThreadStream().__enter__()
+        return self
 
     def __exit__(self, *args, **kwargs):
         return self.getThreadStream().__exit__(*args, **kwargs)
-- 
2.43.0


From bae1ad0dd7590750d72241f4584c8fca816c2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 41/43] fix: ThreadAwareFile lacked some of the standard file
 methods

readable(), seekable(), writable(), readinto() and readall() were those of an
uninitialized file, and always failed.
---
 ebmlite/threaded_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index cfa1df7..f1eaf8c 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -221,6 +221,15 @@ class ThreadAwareFile(io.FileIO):
     def read(self, *args, **kwargs):
         return self.getThreadStream().read(*args, **kwargs)
 
+    def readable(self):
+        return self.getThreadStream().readable()
+
+    def readall(self):
+        return self.getThreadStream().read()
+
+    def readinto(self, *args, **kwargs):
+        return self.getThreadStream().readinto(*args, **kwargs)
+
     def readline(self, *args, **kwargs):
         return self.getThreadStream().readline(*args, **kwargs)
 
@@ -230,6 +239,9 @@ class ThreadAwareFile(io.FileIO):
     def seek(self, *args, **kwargs):
         return self.getThreadStream().seek(*args, **kwargs)
 
+    def seekable(self):
+        return self.getThreadStream().seekable()
+
     def tell(self):
         return self.getThreadStream().tell()
 
@@ -237,6 +249,9 @@ class ThreadAwareFile(io.FileIO):
         raise IOError("Can't truncate(); %s is read-only" %
                       self.__class__.__name__)
 
+    def writable(self):
+        return False
+
     def write(self, *args, **kwargs):
         raise IOError("Can't write(); %s is read-only" %
                       self.__class__.__name__)
-- 
2.43.0


From 3c965c2bb68563d158204cc1da317bb2ccbaf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 42/43] fix: ebml2xml: keep tabs and newlines in text values

minidom (before Python 3.13) writes them unescaped in attributes, so an XML
parser turns them into spaces.
---
 ebmlite/tools/ebml2xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 5e3ca50..124bb77 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -1,5 +1,4 @@
 import argparse
-from xml.dom.minidom import parseString
 from xml.etree import ElementTree as ET
 
 from ebmlite.tools import utils
@@ -65,11 +64,13 @@ def main():
             root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
         else:
             root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
-        s = ET.tostring(root, encoding="utf-8")
         if args.single:
-            out.write(s)
+            out.write(ET.tostring(root, encoding="utf-8"))
         else:
-            parseString(s).writexml(out, addindent='\t', newl='\n', encoding='utf-8')
+            # `minidom` does not escape tabs and newlines in attributes.
+            ET.indent(root, space='\t')
+            out.write('<?xml version="1.0" encoding="utf-8"?>\n')
+            out.write(ET.tostring(root, encoding='unicode') + '\n')
 
 
 if __name__ == "__main__":
-- 
2.43.0


From f8619f7cfcf67f35f4bb61370c6b466ee9c0620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:22 +0000
Subject: [PATCH 43/43] fix: xml2ebml: keep binary data whose text contains
 comments

---
 ebmlite/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 2bce015..8d13042 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -289,7 +289,9 @@ def xmlElement2ebml(xmlEl,
         return len(encId) + len(encSize) + size
 
     elif issubclass(cls, core.BinaryElement):
-        val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+        # Note: the text may be divided by comments
+        text = (xmlEl.text or '') + ''.join(ch.tail or '' for ch in xmlEl)
+        val = xml_codecs.BINARY_CODECS[codec].decode(text)
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, core.FloatElement):
-- 
2.43.0

