From 730f456964482cf657b14baf537408afeb4279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 1/9] fix: soft switch status reads return bit 7 when the
 switch is on

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From 0883dd84fe9ba27533ffe1bcd494e4757251e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 2/9] fix: simulator WADRH write keeps bit 7 of the W5100
 address low byte

---
 simulator/apple2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..6aa2e89 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,8 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = ((value & 0x7f) << 8) | (
+                    self.uthernet.ptr & 0xff)
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 3f43f2ee40624020e463c25ae2db27f7548d241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 3/9] fix: simulated W5100 advances its address only in
 auto-increment mode

---
 simulator/uthernet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulator/uthernet.py b/simulator/uthernet.py
index 5859a8e..2d51358 100644
--- a/simulator/uthernet.py
+++ b/simulator/uthernet.py
@@ -275,14 +275,18 @@ class Uthernet(machine.Machine):
 
     def read_data(self):
         val = self.memory[self.ptr]
-        self.ptr = (self.ptr + 1) & 0x7fff
+        self._advance_ptr()
         return val
 
     def write_data(self, value):
         self.memory[self.ptr] = value
-        self.ptr = (self.ptr + 1) & 0x7fff
+        self._advance_ptr()
         return
 
+    def _advance_ptr(self):
+        if self._auto_increment:
+            self.ptr = (self.ptr + 1) & 0x7fff
+
     def read_mode(self):
         return self.memory[0x0000]
 
-- 
2.43.0


From efa3a4eddad4139759f1993dcfb1914c9d4a6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 4/9] fix: simulator loads the last byte of the ROM images

---
 simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/simulator.py b/simulator/simulator.py
index de20ff6..0eabdaa 100644
--- a/simulator/simulator.py
+++ b/simulator/simulator.py
@@ -16,10 +16,10 @@ def main():
     # TODO: other slot ROMs; alternate Cx ROMs
 
     # Slot 6 ROM
-    a2.memory.write(0xc600, rom[0x0600:0x6ff])
+    a2.memory.write(0xc600, rom[0x0600:0x0700])
 
     # Main ROM
-    a2.memory.write(0xd000, rom[0x5000:0x7fff])
+    a2.memory.write(0xd000, rom[0x5000:0x8000])
 
     # Load video player
 
-- 
2.43.0


From f77457c78dfd38df3ab8a4eed131e04246954f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 5/9] fix: do not derive an infinite audio normalization from
 silence

A soundtrack starting with 10MB of silence gave a multiplier of infinity, so
that all later samples became NaN or infinity and were output as -15.
---
 transcoder/audio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..c1804c0 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -78,6 +78,9 @@ class Audio:
                     break
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
+        if norm == 0:
+            # Silence, there is nothing to normalize
+            return 1.
 
         return 16384. / norm
 
-- 
2.43.0


From 9d90d241f9ecde3d504a06b0b4bf1a2be4c9ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 6/9] fix: track the padding opcodes' store in the encoder's
 screen model

The player stores the target's byte at (0, 0) when there is no more work to
do, which may differ from the equivalent-looking byte the encoder has there.
---
 transcoder/video.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..5837629 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -248,6 +248,7 @@ class Video:
         # If we run out of things to do, pad forever
         content = target.page_offset[0, 0]
         while True:
+            self.pixelmap.apply(0, 0, is_aux, content)
             yield 32, content, [0, 0, 0, 0]
 
     @staticmethod
-- 
2.43.0


From f64021c616915916f06a4b12912ede7b5992d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 7/9] fix: fill all four offsets of an opcode

The search for further offsets stopped at three, so that the fourth was
always a repetition of the first.
---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index 5837629..09bbf1a 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From f07485a662994569361d26ce487edf9d3be39180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 8/9] fix: report failures of the frame decoding thread

An exception in the thread, e.g. because bmp2dhr is not installed, ended it
without notice and the encoder waited forever for the next frame.
---
 transcoder/frame_grabber.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..6a25efe 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -121,8 +121,13 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                # Have the consumer raise it instead of waiting forever
+                q.put((None, e))
+                return
 
             q.put((None, None))
 
@@ -145,3 +150,5 @@ class FileFrameGrabber(FrameGrabber):
             q.task_done()
 
         t.join()
+        if aux is not None:
+            raise aux
-- 
2.43.0


From 34673121b87664175e73b12ef9eadff7a3a78339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 9/9] fix: keep the name of input files without an extension

For "dir.d/movie" the frame directory and output file were derived from "dir",
and for "movie" from the empty string, i.e. the root directory.
---
 transcoder/frame_grabber.py | 2 +-
 transcoder/main.py          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 6a25efe..151c968 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -46,7 +46,7 @@ class FileFrameGrabber(FrameGrabber):
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
         return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
+            os.path.splitext(filename)[0],
             video_mode.name,
             palette.name)
 
diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0

