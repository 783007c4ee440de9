From ac1fa7fd751a5ed2324312a6f319ddc459316d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 01/33] fix: EventIOObject.read must not return bytes behind
 the object after seeking past its end

---
 src/eventio/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..73c5e29 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -291,8 +291,8 @@ class EventIOObject:
             read `size` bytes from the payload of this object
             If size == -1 (default), read all remaining bytes.
         '''
-        # read all remaining bytes.
-        remaining = self.size - self._pos
+        # read all remaining bytes, nothing remains if we are past the end.
+        remaining = max(0, self.size - self._pos)
         if size == -1 or size > remaining:
             size = remaining
 
-- 
2.43.0


From 5886f99e4ca6583f5eb75949d71025639e62fca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 02/33] fix: give every EventIOObject its own position,
 independent of the shared filehandle

---
 src/eventio/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 73c5e29..c40243e 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -296,6 +296,11 @@ class EventIOObject:
         if size == -1 or size > remaining:
             size = remaining
 
+        # the filehandle is shared with all other objects of the same file,
+        # make sure we read at our own position.
+        if size > 0:
+            self._filehandle.seek(self.address + self._pos)
+
         data = self._filehandle.read(size)
         self._pos += len(data)
 
@@ -335,7 +340,10 @@ class EventIOObject:
             assert offset >= 0
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
-            new_pos = self._filehandle.seek(offset, whence)
+            # relative to our own position, not to the one of the shared filehandle
+            offset += self._pos
+            assert offset >= 0
+            new_pos = self._filehandle.seek(address + offset, 0)
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-- 
2.43.0


From 050f06b82e119f56200eb4565ed358d382c682e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 03/33] fix: raise EOFError when the payload of an object is
 truncated

Until now, depending on where exactly a file was cut, parsing the last object
raised struct.error, ValueError or IndexError, so that SimTelFile, which
handles EOFError, did not return the events of most truncated files.
---
 src/eventio/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index c40243e..ebb30fe 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -302,6 +302,8 @@ class EventIOObject:
             self._filehandle.seek(self.address + self._pos)
 
         data = self._filehandle.read(size)
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
         self._pos += len(data)
 
         return data
-- 
2.43.0


From c355ebbfb397698b6812cb7226799031f6b3ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 04/33] fix: a file cut right before the header extension field
 is truncated, not complete

---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index ebb30fe..f53c3ba 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -226,7 +226,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From 8fd7fc3a9fd37f4d5c5a4639892b4815b78cae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 05/33] fix: next() after a failed peek() raises the error of
 the peek

On forward-only streams (gzip process, zstd) the second attempt to read the
truncated object tried to seek backwards and raised OSError, not EOFError.
---
 src/eventio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index f53c3ba..48fd0b7 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -121,6 +121,10 @@ class EventIOFile:
             o, self.next = self.next, None
             return o
 
+        # peek already failed to read the next object
+        if self.peek_error is not None:
+            raise self.peek_error
+
         return self._read_next_object()
 
     def _read_next_object(self):
-- 
2.43.0


From 1af1c80cd23f8c9880b7704e5bd4f5e67c1cd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 06/33] fix: read zstd files consisting of multiple frames

Reads crossing the end of a zstd frame were short, so payloads and headers
located at a frame boundary seemed to be truncated.
---
 src/eventio/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 48fd0b7..e1aa55d 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -97,7 +97,9 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
+            )
             self.zstd = True
 
         else:
-- 
2.43.0


From 91063af66afc669f36dd3a868fbf6e0d24d0824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 07/33] fix: iterating over the events of an IACTFile after
 peek() starts at the first event

---
 src/eventio/iact/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..2f5b9cf 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -139,6 +139,9 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
+        # forget the result of a previous peek, we start again at the first event
+        self.next = None
+        self.peek_error = None
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 3dc428179c2f57eb599db5aceb6134a4bdb05500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 08/33] fix: IACTFile raises EOFError for files truncated
 between two objects

The StopIteration of the low-level iteration escaped from the constructor and
surfaced as RuntimeError from the event generator.
---
 src/eventio/iact/__init__.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 2f5b9cf..21a4fac 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -101,18 +101,18 @@ class IACTFile(EventIOFile):
     def __init__(self, path, zcat=True):
         super().__init__(path, zcat=zcat)
 
-        header_object = next(self)
+        header_object = self._next_object()
         check_type(header_object, RunHeader)
         self.header = header_object.parse()
 
-        input_card_object = next(self)
+        input_card_object = self._next_object()
         check_type(input_card_object, InputCard)
         self.input_card = input_card_object.parse()
 
-        o = next(self)
+        o = self._next_object()
         if isinstance(o, AtmosphericProfile):
             self.atmospheric_profile = o.parse()
-            telescope_object = next(self)
+            telescope_object = self._next_object()
         else:
             self.atmospheric_profile = None
             telescope_object = o
@@ -122,6 +122,17 @@ class IACTFile(EventIOFile):
         self.telescope_positions = telescope_object.parse()
         self._first_event_byte = self.tell()
 
+    def _next_object(self):
+        '''
+        Get the next low-level object where the structure of the file requires one.
+
+        The file is truncated if there is none.
+        '''
+        try:
+            return next(self)
+        except StopIteration:
+            raise EOFError('File seems to be truncated') from None
+
     def __repr__(self):
         return (
             '{}(\n'
@@ -142,13 +153,13 @@ class IACTFile(EventIOFile):
         # forget the result of a previous peek, we start again at the first event
         self.next = None
         self.peek_error = None
-        obj = next(self)
+        obj = self._next_object()
 
         while not isinstance(obj, RunEnd):
             check_type(obj, EventHeader)
             header = obj.parse()
 
-            reuse_object = next(self)
+            reuse_object = self._next_object()
             check_type(reuse_object, ArrayOffsets)
 
             time_offset, array_offsets = reuse_object.parse()
@@ -157,7 +168,7 @@ class IACTFile(EventIOFile):
             longitudinal = None
             particles = None
 
-            obj = next(self)
+            obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
                 if isinstance(obj, Longitudinal):
@@ -169,7 +180,7 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
-                obj = next(self)
+                obj = self._next_object()
 
             split_always = isinstance(obj, TelescopeArrayHead)
 
@@ -183,7 +194,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
-                    obj = next(self)
+                    obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
                         photons, emitter = obj.parse()
@@ -191,7 +202,7 @@ class IACTFile(EventIOFile):
                         emitter_bunches[obj.telescope] = emitter
                         n_photons[obj.telescope] = obj.n_photons
                         n_bunches[obj.telescope] = obj.n_bunches
-                        obj = next(self)
+                        obj = self._next_object()
                 else:
                     check_type(obj, TelescopeData)
                     telescope_data_obj = obj
@@ -219,7 +230,7 @@ class IACTFile(EventIOFile):
                     impact_y=-array_offsets[reuse]['y'],
                 )
                 reuses.append(reuse_data)
-                obj = next(self)
+                obj = self._next_object()
 
             check_type(obj, EventEnd)
             event_end = obj.parse(header["version"])
@@ -235,7 +246,7 @@ class IACTFile(EventIOFile):
                     **reuse,
                 )
 
-            obj = next(self)
+            obj = self._next_object()
 
         self.run_end = obj.parse()
 
-- 
2.43.0


From 9ea1a7e925195cf82c12b4f834fb12ebfc6a16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 09/33] fix: SimTelFile raises EOFError for files ending inside
 the header

---
 src/eventio/simtel/simtelfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..c2db9b0 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -206,7 +206,10 @@ class SimTelFile:
         # and we found the telescope_descriptions of all telescopes
         found_all_telescopes = False
         while not found_all_telescopes:
-            self._parse_next_object()
+            try:
+                self._parse_next_object()
+            except StopIteration:
+                raise EOFError('File seems to be truncated') from None
 
             # check if we found all the descriptions of all telescopes
             if self.n_telescopes is not None:
-- 
2.43.0


From 12f728a77bc95852442bce4c2c768e1e4d3a3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 10/33] fix: parsing an object does not depend on its current
 position

History, meta, auxiliary trace, pixel trigger time and pixel monitoring
objects were parsed from the current position, so that parsing again or after
reading from the object failed or returned wrong data.
---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..1c6c660 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From b3d043bf6f3cf6046848cb31696bdf93ea6bab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 11/33] fix: parse the extra parameters of MCShower version 2

The embedded object was read from the end of the already consumed payload and
the float parameters used the number of integer parameters.
---
 src/eventio/simtel/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 1c6c660..c32ba66 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1445,9 +1445,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
@@ -1466,7 +1466,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From 23f81535edf84ee56883c8993316bb3154d36755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 12/33] fix: parse the content of integer histograms

---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 36a3feb8aa5f7a6ff96deab7bbcff8ced840947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 13/33] fix: parse TriggerInformation versions 0 and 1, which
 have no type mask

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index c32ba66..fe75f9a 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -650,7 +650,7 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From ccf162763ee56c1a2eb574c09195ae91fab3d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 14/33] fix: parse the physical addresses in
 TelescopeEventHeader versions 0 and 1

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index fe75f9a..ab6e3ac 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -817,7 +817,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From b4aaedf260dcbb390a759cc18e089004a37bcf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 15/33] fix: name of curved_surface in CameraSettings before
 version 4

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index ab6e3ac..c3fcd39 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -253,7 +253,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From 9b6193df3be7cf8914f70aca02554b5966f0e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 16/33] fix: varint_array decodes the full 64 bit range

The zig-zag encoded value was shifted as signed integer, so that values using
the most significant bit were wrong, unlike in varint() and read_varint().
---
 src/eventio/var_int.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..956f251 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -156,7 +156,7 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    cdef uint64_t val
     cdef uint8_t length
 
     cdef uint8_t one = 1;
-- 
2.43.0


From eb2e0dcce3893f4c9f001bbbad9fef88609d426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 17/33] fix: observation level particles of a shower are not
 attached to the next one

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index c2db9b0..6a6210a 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -286,6 +286,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # the particles belong to the previous shower
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From e6611a2a6f7c1d245a18aef71a9c1d146db22b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 18/33] fix: ignore unexpected objects in
 CalibrationPhotoelectrons as announced

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 6a6210a..fbb8a5b 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -367,6 +367,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From 113b3a4999577b1ed7ec00bb153385918bc176dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 19/33] fix: yield_n_subobjects yields nothing for n=0

---
 src/eventio/search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..9f3e466 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -81,6 +81,9 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
+    if n <= 0:
+        return
+
     for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
         if i >= n:
             yield obj
-- 
2.43.0


From f2fae0d76565c51d2a320d83087dc32ea3d5274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 20/33] fix: cut_eventio_file keeps an object ending exactly at
 max_size

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cbae47b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -55,7 +55,7 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
-- 
2.43.0


From 3163731232b5107c70300286c329317996a96e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 21/33] fix: cut_eventio_file rejects sizes with trailing
 characters

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cbae47b..4b275aa 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
-- 
2.43.0


From e8b445c4bfacdc5e287e02760d92be0bda8b33ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 22/33] fix: cut_eventio_file does not fail if no object fits
 into max_size

---
 src/eventio/scripts/cut_eventio_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 4b275aa..cf3d72b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -62,7 +62,8 @@ def main():
                 break
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
-    print('Last object is of type {}'.format(last_o.header.type))
+    if last_o is not None:
+        print('Last object is of type {}'.format(last_o.header.type))
 
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
-- 
2.43.0


From d2d1ec471b5ca12bcce022134331e7699c3a67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 23/33] fix: print_structure reports the correct number of
 omitted objects

It was one too small, missing if exactly one object was omitted and missing at
the end of the file.
---
 src/eventio/scripts/print_structure.py | 28 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..d2a63d2 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -34,21 +34,33 @@ def print_structure():
                     n_same += 1
                     last_level = level
                 else:
+                    if last:
+                        print_omitted(n_same + 1, args.max_repeats, last_level)
                     last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
                     n_same = 0
                     last_level = level
 
                 if n_same < args.max_repeats:
                     print('    ' * level, conv(o))
+            error = None
         except EOFError as e:
-            print(e)
+            error = e
+
+        if last:
+            print_omitted(n_same + 1, args.max_repeats, last_level)
+
+        if error:
+            print(error)
+
+
+def print_omitted(n_objects, max_repeats, level):
+    if n_objects > max_repeats:
+        print(
+            '    ' * level,
+            'And {} objects more of the same type'.format(
+                n_objects - max_repeats
+            )
+        )
 
 
 def main():
-- 
2.43.0


From 0c286484e52925bc82dcaa97ac2f8ab304bab514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 24/33] fix: print_simtel_history handles files containing only
 history objects

---
 src/eventio/scripts/print_simtel_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..3ff0e57 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -17,7 +17,7 @@ def print_history():
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
+            o = next(f, None)
 
 
 def main():
-- 
2.43.0


From 0ffeb75ab1bbb81b5f9238421450492111bd5559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 25/33] fix: an incomplete variable length integer is an error

The available bytes were decoded as a shorter, wrong number.
---
 src/eventio/var_int.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 956f251..4cdc27d 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -53,6 +53,10 @@ cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
     cdef uint8_t length = var_int_bytes.shape[0]
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
+
+    if length == 0 or length != get_length_of_varint(var_int_bytes[0]):
+        raise EOFError('Incomplete variable length integer')
+
     for i in range(length):
         v[i] = var_int_bytes[i]
 
-- 
2.43.0


From 05e173b9b6105b06dd6186dacc177cfd2a1b16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 26/33] fix: recognize eventio files whose first zstd frame is
 shorter than the sync marker

---
 src/eventio/file_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From db07eacfe15f2b80653b0e8f307ac9b1ef94e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 27/33] fix: require a TelescopeArrayHead for every reuse in
 split mode

---
 src/eventio/iact/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 21a4fac..eb3aa86 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -194,6 +194,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From df50d923fcaa1421e6e70f9fd84c72f65c93d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 28/33] fix: histogram titles are padded to their length in
 bytes

---
 src/eventio/histograms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..4dd6989 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,9 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From 475347fce262f7abe7f634baeb0dc6c2c56605ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 29/33] fix: do not lose the last calibration event if the
 following one is truncated

---
 src/eventio/simtel/simtelfile.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index fbb8a5b..544dbd2 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -290,15 +290,15 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            array_event_data = parse_array_event(o, self.allowed_telescopes)
+
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
             self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -335,6 +335,7 @@ class SimTelFile:
 
         elif isinstance(o, CalibrationEvent):
             array_event = next(o)
+            array_event_data = parse_array_event(array_event, self.allowed_telescopes)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             event = self.current_event
@@ -343,9 +344,7 @@ class SimTelFile:
                 "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From cb0c1ea2b53ae8b249060f08165049146ad38a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 30/33] fix: an IACT shower without telescope data is not given
 the data of the next one

---
 src/eventio/iact/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index eb3aa86..97cf160 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -2,7 +2,7 @@ import logging
 from collections import namedtuple
 
 from ..base import KNOWN_OBJECTS, EventIOFile, EventIOObject
-from ..exceptions import check_type
+from ..exceptions import WrongType, check_type
 
 from .objects import (
     RunHeader,
@@ -171,6 +171,10 @@ class IACTFile(EventIOFile):
             obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
+                if isinstance(obj, (EventHeader, EventEnd, RunEnd)):
+                    # do not skip into the next event, this one has no data
+                    raise WrongType((TelescopeData, TelescopeArrayHead), obj)
+
                 if isinstance(obj, Longitudinal):
                     longitudinal = obj.parse()
 
-- 
2.43.0


From 73acbfaf722a498c7ac4393e9eb3ae8bf34234e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 31/33] fix: plot tool fails for histograms without entries

---
 src/eventio/scripts/plot_hists.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 1ccbe0f..7e8a51b 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -50,11 +50,14 @@ def main():
                     marginal_x = np.sum(hist['data'], axis=0)
                     marginal_y = np.sum(hist['data'], axis=1)
 
+                    # empty histograms are shown with their full range
                     non_zero_x, = np.where(marginal_x != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                     non_zero_y, = np.where(marginal_y != 0)
-                    plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
+                    if len(non_zero_y) > 0:
+                        plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
                     plt.colorbar(label='Number of Events')
 
                 else:
@@ -62,7 +65,8 @@ def main():
                     plt.hist(centers, bins=x_bins, weights=hist['data'])
 
                     non_zero_x, = np.where(hist['data'] != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                 plt.title(hist['title'])
                 plt.tight_layout()
-- 
2.43.0


From 59fc548579f0de1eb9ebe79078323e6b3deca069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 32/33] fix: parsing photon bunches in chunks is independent of
 other reads of the object

The chunks were read from wherever the object was positioned, so that
reading, seeking or parsing the object between two chunks gave wrong rows.
---
 src/eventio/iact/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..103d435 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -272,12 +272,18 @@ class Photons(EventIOObject):
         if last_chunksize == 0:
             last_chunksize = chunksize
 
+        # the object might be used otherwise between two chunks
+        position = 12
+
         # read the first full size chunks
         for _ in range(n_chunks - 1):
+            self.seek(position)
             data = self.read_data(chunksize=chunksize)
+            position = self.tell()
             yield self.parse_emitter(data)
 
         # read the remaining, smaller chunk
+        self.seek(position)
         data = self.read_data(chunksize=last_chunksize)
         yield self.parse_emitter(data)
 
-- 
2.43.0


From 70c4157bfbb11b2c83faa1194c25081e473e16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 33/33] fix: gzip compressed files whose name starts with a
 dash

The name was given to the gzip process as is and taken for an option, the
file then looked empty.
---
 src/eventio/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index e1aa55d..db120cd 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -1,4 +1,5 @@
 from io import BufferedIOBase
+import os
 import warnings
 import weakref
 import struct
@@ -78,7 +79,9 @@ class EventIOFile:
                 try:
                     log.info('Trying to read using zcat')
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        # absolute, so that a leading dash is not taken for an option
+                        ['gzip', '-cd', os.path.abspath(path)],
+                        stdout=sp.PIPE, stderr=sp.PIPE,
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0

