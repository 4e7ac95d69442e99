From a9098fd9940e4823138de86a2679e4f9858e8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 01/62] fix: readn() reports short reads and accepts empty ones

A payload cut short by the end of the stream was returned as if it were
complete, and a record with an empty payload raised Eof.
---
 src/hwp5/dataio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..249ce39 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -54,12 +54,14 @@ class OutOfData(Exception):
 def readn(f, size):
     data = f.read(size)
     datasize = len(data)
-    if datasize == 0:
+    if datasize < size:
         try:
             pos = f.tell()
         except IOError:
             pos = '<UNKNOWN>'
-        raise Eof(pos)
+        if datasize == 0:
+            raise Eof(pos)
+        raise OutOfData(pos)
     return data
 
 
-- 
2.43.0


From 70d9141fe9e84322d366aa9ca38750c892ab39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 02/62] fix: a record header cut off in its extended size is
 not a clean end

decode_record_header() took the end of the stream inside the extended size
field for the end of the record stream and dropped the record silently.
---
 src/hwp5/recordstream.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..504c69a 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -51,14 +51,14 @@ def decode_record_header(f):
     try:
         # TagID, Level, Size
         rechdr = UINT32.read(f)
-        tagid = rechdr & 0x3ff
-        level = (rechdr >> 10) & 0x3ff
-        size = (rechdr >> 20) & 0xfff
-        if size == 0xfff:
-            size = UINT32.read(f)
-        return (tagid, level, size)
     except Eof:
         return None
+    tagid = rechdr & 0x3ff
+    level = (rechdr >> 10) & 0x3ff
+    size = (rechdr >> 20) & 0xfff
+    if size == 0xfff:
+        size = UINT32.read(f)
+    return (tagid, level, size)
 
 
 def encode_record_header(rec):
-- 
2.43.0


From dacfb26fbbb6695d414c61cd79099dfc0dfb8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 03/62] fix: read the access state of a bindata entry from bits
 8-9

---
 src/hwp5/binmodel/tagid18_bin_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid18_bin_data.py b/src/hwp5/binmodel/tagid18_bin_data.py
index 5cd94bf..da17ea8 100644
--- a/src/hwp5/binmodel/tagid18_bin_data.py
+++ b/src/hwp5/binmodel/tagid18_bin_data.py
@@ -64,7 +64,7 @@ class BinData(RecordModel):
     Flags = Flags(UINT16,
                   0, 3, StorageType, 'storage',
                   4, 5, CompressionType, 'compression',
-                  16, 17, AccessState, 'access')
+                  8, 9, AccessState, 'access')
 
     def attributes(cls):
         ''' 표 12 바이너리 데이터 '''
-- 
2.43.0


From 24fb757392835cd7cf6f5a4547bf7873c4665f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 04/62] fix: relative sizes of a char shape are unsigned
 (10-250 %)

---
 src/hwp5/binmodel/tagid21_char_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid21_char_shape.py b/src/hwp5/binmodel/tagid21_char_shape.py
index e366b7b..2748865 100644
--- a/src/hwp5/binmodel/tagid21_char_shape.py
+++ b/src/hwp5/binmodel/tagid21_char_shape.py
@@ -76,7 +76,7 @@ class CharShape(RecordModel):
         yield (LanguageStruct('LetterWidthExpansion', UINT8),
                'letter_width_expansion')
         yield LanguageStruct('LetterSpacing', INT8), 'letter_spacing'
-        yield LanguageStruct('RelativeSize', INT8), 'relative_size'
+        yield LanguageStruct('RelativeSize', UINT8), 'relative_size'
         yield LanguageStruct('Position', INT8), 'position'
         yield INT32, 'basesize',
         yield cls.Flags, 'charshapeflags',
-- 
2.43.0


From 23bbb2b237f7aaf60d443244026fe56d26a65eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 05/62] fix: the type code of a property value is its low 16
 bits

---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..4714c91 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -296,7 +296,7 @@ class TypedPropertyValue(Struct):
         return cls(code=d['type'].code)
 
     TypeFlags = Flags(UINT32,
-                      0, 16, 'code')
+                      0, 15, 'code')
 
     def attributes(cls):
         yield cls.TypeFlags, 'type'
-- 
2.43.0


From 560da04d0489e0e9784dea9db1884d91fc5e1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 06/62] fix: a flags member that cannot be read is a
 ParseError, not a KeyError

---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..77dbd87 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -285,7 +285,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if 'flags_type' in item and ev is not ERROREVENT:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From bf583f133cce0120a342ff6528c74375263b03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 07/62] fix: list headers and control data without a parent
 record use the generic model

---
 src/hwp5/binmodel/tagid56_list_header.py | 2 +-
 src/hwp5/binmodel/tagid71_ctrl_data.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/binmodel/tagid56_list_header.py b/src/hwp5/binmodel/tagid56_list_header.py
index 4547a28..2114eb9 100644
--- a/src/hwp5/binmodel/tagid56_list_header.py
+++ b/src/hwp5/binmodel/tagid56_list_header.py
@@ -82,7 +82,7 @@ class ListHeader(with_metaclass(ListHeaderType, RecordModel)):
         if 'parent' in context:
             context, model = context['parent']
             seen_table_body = context.get('seen_table_body', False)
-            return model['type'], seen_table_body
+            return model.get('type'), seen_table_body
     get_extension_key = staticmethod(get_extension_key)
 
 
diff --git a/src/hwp5/binmodel/tagid71_ctrl_data.py b/src/hwp5/binmodel/tagid71_ctrl_data.py
index 14f6f77..965ff5f 100644
--- a/src/hwp5/binmodel/tagid71_ctrl_data.py
+++ b/src/hwp5/binmodel/tagid71_ctrl_data.py
@@ -52,5 +52,5 @@ class ControlData(with_metaclass(ControlDataType, RecordModel)):
         ''' parent model type '''
         parent = context.get('parent')
         if parent:
-            return parent[1]['type']
+            return parent[1].get('type')
     get_extension_key = classmethod(get_extension_key)
-- 
2.43.0


From 12ba76297ecaef71ab3d6a8a21889102fa65dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 08/62] fix: failing conditions, counts and keys of a record
 surface as ParseError

---
 src/hwp5/binmodel/__init__.py | 44 +++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..a2a73b3 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -315,20 +315,33 @@ def parse_model(context, model):
 
 def raise_on_errorevent(context, events):
     binevents = list()
-    for ev, item in events:
-        yield ev, item
-        binevents.append((ev, item))
-        if ev is ERROREVENT:
-            e = item['exception']
-            msg = 'can\'t parse %s' % item['type']
-            pe = ParseError(msg)
-            pe.cause = e
-            pe.path = context.get('path')
-            pe.treegroup = context.get('treegroup')
-            pe.record = context.get('record')
-            pe.offset = item.get('bin_offset')
-            pe.binevents = binevents
-            raise pe
+    offset = 0
+    try:
+        for ev, item in events:
+            yield ev, item
+            binevents.append((ev, item))
+            offset = item.get('bin_offset', offset)
+            if ev is ERROREVENT:
+                msg = 'can\'t parse %s' % item['type']
+                e = item['exception']
+                raise make_parse_error(context, msg, e, offset, binevents)
+    except ParseError:
+        raise
+    except Exception as e:
+        # a condition, a count or an extension key could not be evaluated
+        msg = 'can\'t parse record'
+        raise make_parse_error(context, msg, e, offset, binevents)
+
+
+def make_parse_error(context, msg, cause, offset, binevents):
+    pe = ParseError(msg)
+    pe.cause = cause
+    pe.path = context.get('path')
+    pe.treegroup = context.get('treegroup')
+    pe.record = context.get('record')
+    pe.offset = offset
+    pe.binevents = binevents
+    return pe
 
 
 def resolve_models(context, records):
@@ -347,7 +360,8 @@ def resolve_models(context, records):
         context['type'] = RecordModel
         context['name'] = record_frame['tagname']
         yield STARTEVENT, context
-        for x in resolve_model_events(context, context['model']):
+        events = resolve_model_events(context, context['model'])
+        for x in raise_on_errorevent(context, events):
             yield x
         event, item = x
         context['value'] = item
-- 
2.43.0


From b9c69bca86155448390578856125522280902dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 09/62] fix: a ParseError without an offset can be reported

---
 src/hwp5/dataio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 249ce39..1ef4d88 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -483,6 +483,7 @@ class ParseError(Exception):
         self.path = None
         self.record = None
         self.binevents = None
+        self.offset = None
         self.parse_stack_traces = []
 
     def print_to_logger(self, logger):
@@ -497,7 +498,8 @@ class ParseError(Exception):
             logger.error('Record Payload:')
             for line in dumpbytes(e.record['payload'], True):
                 logger.error('  %s', line)
-        logger.error('Problem Offset: at %d (=0x%x)', e.offset, e.offset)
+        if e.offset is not None:
+            logger.error('Problem Offset: at %d (=0x%x)', e.offset, e.offset)
         if self.binevents:
             logger.error('Binary Parse Events:')
             from hwp5.bintype import log_events
@@ -508,7 +510,7 @@ class ParseError(Exception):
             model = c['model']
             if isinstance(model, StructType):
                 logger.error('  %s', model)
-                parsed_members = c['parsed']
+                parsed_members = c.get('parsed', ())
                 for member in parsed_members:
                     offset = member.get('offset', 0)
                     offset_end = member.get('offset_end', 1)
@@ -516,7 +518,7 @@ class ParseError(Exception):
                     value = member['value']
                     logger.error('    %06x:%06x: %s = %s',
                                  offset, offset_end - 1, name, value)
-                logger.error('    %06x:      : %s', c['offset'], c['member'])
+                logger.error('    %06x:      : %s', c.get('offset', 0), c['member'])
                 pass
             else:
                 logger.error('  %s%s', ' ' * level, c)
-- 
2.43.0


From 3f1aea3929e0bffcf20b0622418829625fa5f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 10/62] fix: the reserved control characters 25-29 do not fail
 a paragraph

---
 src/hwp5/binmodel/controlchar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index a38554e..1306e5b 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -153,6 +153,11 @@ class ControlChar(object):
              0x16: ('BOOKMARK', EXTENDED),
              0x17: ('CTLCHR17', EXTENDED),
              0x18: ('HYPHEN', CHAR),
+             0x19: ('CTLCHR19', CHAR),
+             0x1a: ('CTLCHR1A', CHAR),
+             0x1b: ('CTLCHR1B', CHAR),
+             0x1c: ('CTLCHR1C', CHAR),
+             0x1d: ('CTLCHR1D', CHAR),
              0x1e: ('NONBREAK_SPACE', CHAR),
              0x1f: ('FIXWIDTH_SPACE', CHAR)}
     names = dict((unichr(code), name) for code, (name, kind) in chars.items())
-- 
2.43.0


From dcf6319f8adfacf137c207ee5e774fb09e597501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:28 +0000
Subject: [PATCH 11/62] fix: bit fields of one-byte words end with the word

---
 src/hwp5/binmodel/_shared.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/binmodel/_shared.py b/src/hwp5/binmodel/_shared.py
index e1544b2..84536df 100644
--- a/src/hwp5/binmodel/_shared.py
+++ b/src/hwp5/binmodel/_shared.py
@@ -215,14 +215,14 @@ class FillImage(Fill):
                          RIGHT_BOTTOM=14,
                          NONE=15)
     FillImageFlags = Flags(BYTE,
-                           0, 16, FillImageEnum, 'fillimage_type')
+                           0, 7, FillImageEnum, 'fillimage_type')
 
     EffectEnum = Enum(REAL_PIC=0,
                       GRAY_SCALE=1,
                       BLACK_WHITE=2,
                       PATTERN8x8=3)
     EffectFlags = Flags(UINT8,
-                        0, 8, EffectEnum, 'effect_type')
+                        0, 7, EffectEnum, 'effect_type')
 
     def attributes(cls):
         yield cls.FillImageFlags, 'flags'
@@ -242,7 +242,7 @@ class Coord32(Struct):
 
 GradationTypeEnum = Enum(LINEAR=1, CIRCULAR=2, CONICAL=3, RECTANGULAR=4)
 GradationTypeFlags = Flags(BYTE,
-                           0, 8, GradationTypeEnum, 'gradation_type')
+                           0, 7, GradationTypeEnum, 'gradation_type')
 
 
 class FillGradation(Fill):
-- 
2.43.0


From 1a4a076f77dcc530f212c11a4afd3c3881c51085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 12/62] fix: parse errors of model events carry the stream path

---
 src/hwp5/binmodel/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a2a73b3..a6bb222 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -485,6 +485,10 @@ class ModelStream(recordstream.RecordStream):
 
     def parse_model_events(self):
         context = dict(version=self.version)
+        try:
+            context['path'] = self.path
+        except AttributeError:
+            pass
 
         def resolve_values_from_record(record):
             stream = BytesIO(record['payload'])
-- 
2.43.0


From a1a069ba5b0f711a7632ce244092e6f091219120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 13/62] fix: the converters report a parse error by their exit
 status

---
 src/hwp5/hwp5html.py | 1 +
 src/hwp5/hwp5odt.py  | 1 +
 src/hwp5/hwp5txt.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..d7ae124 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -365,6 +365,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From f287b51680c14ca8157b002ebf514eb94b7b11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 14/62] fix: hwp5proc find reports files it could not parse by
 its exit status

---
 src/hwp5/proc/find.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..4fcdd89 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -93,6 +93,7 @@ def main(args):
 
     print_model = printer_from_args(args)
 
+    failed = False
     for filename in filenames:
         try:
             models = hwp5file_models(filename)
@@ -102,6 +103,9 @@ def main(args):
         except ParseError as e:
             logger.error('---- On processing %s:', filename)
             e.print_to_logger(logger)
+            failed = True
+    if failed:
+        sys.exit(1)
 
 
 def find_argparser(subparsers, _):
-- 
2.43.0


From ad3ab35731a9127e38424d55e8a75910494f056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 15/62] fix: a failing xsltproc is not taken for a successful
 conversion

---
 src/hwp5/plat/xsltproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 747f649..10a8422 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -87,7 +87,7 @@ class XSLT:
         if p.returncode == 0:
             return dict()
         else:
-            return dict(errors=[])
+            raise CalledProcessError(p.returncode, cmd)
 
     def transform_into_stream(self, input, output):
         '''
@@ -100,7 +100,7 @@ class XSLT:
         if p.returncode == 0:
             return dict()
         else:
-            return dict(errors=[])
+            raise CalledProcessError(p.returncode, cmd)
 
 
 def xslt_compile(xsl_path, **params):
-- 
2.43.0


From d3a680eb9cd3f084b40a7e742d10e8b86f520401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 16/62] fix: hwp5proc xml fails when xmllint rejects its output

---
 src/hwp5/proc/xml.py | 4 ++--
 src/hwp5/utils.py    | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/proc/xml.py b/src/hwp5/proc/xml.py
index 437abe4..d91e0f1 100644
--- a/src/hwp5/proc/xml.py
+++ b/src/hwp5/proc/xml.py
@@ -66,8 +66,8 @@ def main(args):
         xmllint(format=True),
     ] if not args.no_validate_wellformed else []))
     open_dest = wrap_open_dest(open_dest, [
-        xmllint(encode='utf-8'),
-        xmllint(c14n=True),
+        xmllint(encode='utf-8', check=True),
+        xmllint(c14n=True, check=True),
     ] if not args.no_validate_wellformed else [])
 
     hwp5file = Hwp5File(args.hwp5file)
diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..387e96a 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -298,7 +298,7 @@ def null_contextmanager_filter(output):
     yield output
 
 
-def output_thru_subprocess(cmd):
+def output_thru_subprocess(cmd, check=False):
     @contextmanager
     def filter(output):
         logger.debug('%r', cmd)
@@ -319,10 +319,12 @@ def output_thru_subprocess(cmd):
                 p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
+            if check and retcode > 0:
+                raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
 
-def xmllint(c14n=False, encode=None, format=False, nonet=True):
+def xmllint(c14n=False, encode=None, format=False, nonet=True, check=False):
     cmd = ['xmllint']
     if c14n:
         cmd.append('--c14n')
@@ -333,7 +335,7 @@ def xmllint(c14n=False, encode=None, format=False, nonet=True):
     if nonet:
         cmd.append('--nonet')
     cmd.append('-')
-    return output_thru_subprocess(cmd)
+    return output_thru_subprocess(cmd, check=check)
 
 
 def syntaxhighlight(mimetype):
-- 
2.43.0


From febf017b0d9961ee6eda30dd11555d9fba7b769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:36 +0000
Subject: [PATCH 17/62] fix: a failing openssl is not taken for a successful
 decryption

---
 src/hwp5/plat/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a23c299..c711719 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -178,10 +178,13 @@ def get_aes128ecb_decrypt_openssl():
         try:
             p = Popen(args, stdout=subprocess.PIPE)
             try:
-                return p.stdout.read()
+                plaintext = p.stdout.read()
             finally:
                 p.wait()
                 p.stdout.close()
+            if p.returncode != 0:
+                raise CalledProcessError(p.returncode, args)
+            return plaintext
         finally:
             os.unlink(name)
 
-- 
2.43.0


From 49235d2e93ebf0ae3ada2fdaf6b3cb30ef911ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 18/62] fix: zlib_raw StreamReader finishes decoding at the end
 of its input only

---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..521f1cb 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -127,7 +127,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From 24f1806f561fd93426ef502b152eaa57c6af4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 19/62] fix: zlib_raw IncrementalEncoder.reset() forgets that
 the header was stripped

---
 src/hwp5/zlib_raw_codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 521f1cb..ec8c5a9 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -64,6 +64,7 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
 
     def reset(self):
         self.compressobj = zlib.compressobj()
+        self.initial = True
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From f04cff7f53c4c2d3407c19d143b7ec8e955c6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 20/62] fix: report damaged OLE2 containers as
 InvalidOleStorageError

---
 src/hwp5/plat/olefileio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..9e795c9 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -112,7 +112,11 @@ class OleStorage(OleStorageItem):
             if not isOleFile(olefile):
                 errormsg = 'Not an OLE2 Compound Binary File.'
                 raise InvalidOleStorageError(errormsg)
-            olefile = OleFileIO(olefile)
+            try:
+                olefile = OleFileIO(olefile)
+            except (IOError, ValueError) as e:
+                errormsg = 'Not a valid OLE2 Compound Binary File: %s' % e
+                raise InvalidOleStorageError(errormsg)
         OleStorageItem.__init__(self, olefile, path, parent)
 
     def __iter__(self):
-- 
2.43.0


From fbb2bfd1da572f702e81cc2445cfed183a46bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 21/62] fix: refuse documents whose FileHeader is cut off or
 not a stream as invalid

---
 src/hwp5/filestructure.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..47d925b 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -25,6 +25,7 @@ import sys
 
 from .bintype import read_type
 from .compressed import decompress
+from .dataio import ParseError
 from .dataio import UINT32, Flags, Struct
 from .errors import InvalidOleStorageError
 from .errors import InvalidHwp5FileError
@@ -107,11 +108,19 @@ def storage_is_hwp5file(stg):
     except KeyError:
         logger.info('stg has no FileHeader')
         return False
+    if not is_stream(fileheader):
+        logger.info('FileHeader is not a stream')
+        return False
     fileheader = HwpFileHeader(fileheader)
-    if fileheader.signature == HWP5_SIGNATURE:
+    try:
+        signature = fileheader.signature
+    except ParseError as e:
+        logger.info('FileHeader is invalid: %s', e)
+        return False
+    if signature == HWP5_SIGNATURE:
         return True
     else:
-        logger.info('fileheader.signature = %r', fileheader.signature)
+        logger.info('fileheader.signature = %r', signature)
         return False
 
 
-- 
2.43.0


From e8e106ff46e7cd83aae402617d2a81dd84c451d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:36 +0000
Subject: [PATCH 22/62] fix: unpack: keep item names from selecting paths
 outside of the output directory

---
 src/hwp5/storage/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..2b546ca 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -21,6 +21,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 import io
 import os.path
+import re
 import sys
 
 
@@ -121,6 +122,20 @@ def iter_storage_leafs(stg, basepath=''):
             yield path
 
 
+def item_filename(name):
+    ''' filename for a storage item, i.e. a single component of a path
+
+    Names of the items come from the document, so those which can't be used as
+    a filename or which have a special meaning in the filesystem are escaped.
+    '''
+    name = re.sub('[\\x00-\\x1f/\\\\:]',
+                  lambda m: '_%02x' % ord(m.group()),
+                  name)
+    if name in ('', '.', '..'):
+        name = '_' + name
+    return name
+
+
 def unpack(stg, outbase):
     ''' unpack a storage into outbase directory
 
@@ -128,7 +143,7 @@ def unpack(stg, outbase):
         outbase: path to a directory in filesystem (should not end with '/')
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outpath = os.path.join(outbase, item_filename(name))
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,7 +152,6 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
-- 
2.43.0


From 1adb82d7ebbf43397ec3d4f789453b7cd7028063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 23/62] fix: remove the temporary file for openssl even if
 writing it fails

---
 src/hwp5/plat/__init__.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index c711719..26ac23b 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -158,24 +158,24 @@ def get_aes128ecb_decrypt_openssl():
 
     def decrypt(key, ciphertext):
         fd, name = tempfile.mkstemp()
-        fp = os.fdopen(fd, 'wb')
-        try:
-            fp.write(ciphertext)
-        finally:
-            fp.close()
-
-        args = [
-            'openssl',
-            'enc',
-            '-d',
-            '-in',
-            name,
-            '-aes-128-ecb',
-            '-K',
-            b2a_hex(key),
-            '-nopad',
-        ]
         try:
+            fp = os.fdopen(fd, 'wb')
+            try:
+                fp.write(ciphertext)
+            finally:
+                fp.close()
+
+            args = [
+                'openssl',
+                'enc',
+                '-d',
+                '-in',
+                name,
+                '-aes-128-ecb',
+                '-K',
+                b2a_hex(key),
+                '-nopad',
+            ]
             p = Popen(args, stdout=subprocess.PIPE)
             try:
                 plaintext = p.stdout.read()
-- 
2.43.0


From a6e55b55113545d6f6774a7b99266dde3489f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 24/62] fix: wait for the subprocess even if closing its input
 fails

---
 src/hwp5/plat/xmllint.py | 13 +++++++++----
 src/hwp5/utils.py        |  6 ++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 2ef1e09..6a2445a 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -71,6 +71,13 @@ def relaxng(rng_path, inp_path):
     return p.returncode == 0
 
 
+def close_and_wait(p):
+    try:
+        p.stdin.close()
+    finally:
+        p.wait()
+
+
 def relaxng_compile(rng_path):
     return RelaxNG(rng_path)
 
@@ -87,11 +94,9 @@ class RelaxNG:
         try:
             yield p.stdin
         except:
-            p.stdin.close()
-            p.wait()
+            close_and_wait(p)
             raise
         else:
-            p.stdin.close()
-            p.wait()
+            close_and_wait(p)
             if p.returncode != 0:
                 raise Exception('RelaxNG validation failed')
diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 387e96a..7f54cf5 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -315,8 +315,10 @@ def output_thru_subprocess(cmd, check=False):
                 if e.errno != errno.EPIPE:
                     raise
             finally:
-                p.stdin.close()
-                p.wait()
+                try:
+                    p.stdin.close()
+                finally:
+                    p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
             if check and retcode > 0:
-- 
2.43.0


From c17c2b3431a7fc99a10e44b997f546ecf9b0440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 25/62] fix: close streams and containers after own use

---
 src/hwp5/filestructure.py | 21 +++++++++++++--------
 src/hwp5/hwp5odt.py       |  4 ++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 47d925b..093d901 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 from io import BytesIO
 import logging
 import sys
@@ -99,7 +100,8 @@ def is_hwp5file(filename):
         olestg = OleStorage(filename)
     except InvalidOleStorageError:
         return False
-    return storage_is_hwp5file(olestg)
+    with closing(olestg):
+        return storage_is_hwp5file(olestg)
 
 
 def storage_is_hwp5file(stg):
@@ -192,13 +194,16 @@ class Hwp5FileBase(ItemConversionStorage):
     '''
 
     def __init__(self, stg):
+        opened = None
         if isinstance(stg, basestring):
             try:
-                stg = OleStorage(stg)
+                stg = opened = OleStorage(stg)
             except InvalidOleStorageError:
                 raise InvalidHwp5FileError('Not an OLE2 Compound Binary File.')
 
         if not storage_is_hwp5file(stg):
+            if opened is not None:
+                opened.close()
             errormsg = 'Not an HWP Document format v5 storage.'
             raise InvalidHwp5FileError(errormsg)
 
@@ -224,9 +229,9 @@ class Hwp5DistDocStream(VersionSensitiveItem):
         return decode(encodedstream)
 
     def head_record(self):
-        item = self.wrapped.open()
         from .recordstream import read_record
-        return read_record(item, 0)
+        with closing(self.wrapped.open()) as item:
+            return read_record(item, 0)
 
     def head_record_stream(self):
         from .recordstream import record_to_json
@@ -252,11 +257,11 @@ class Hwp5DistDocStream(VersionSensitiveItem):
         return decode_head_to_key(payload)
 
     def tail(self):
-        item = self.wrapped.open()
         from .recordstream import read_record
-        read_record(item, 0)
-        assert 4 + 256 == item.tell()
-        return item.read()
+        with closing(self.wrapped.open()) as item:
+            read_record(item, 0)
+            assert 4 + 256 == item.tell()
+            return item.read()
 
     def tail_decrypted(self):
         from hwp5.distdoc import decrypt_tail
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index d7ae124..9bf8cf0 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -145,10 +145,10 @@ class ODTTransform(BaseTransform, ODFValidate):
         if 'BinData' in hwp5file:
             bindata = hwp5file['BinData']
             for name in bindata:
-                f = bindata[name].open()
                 path = 'bindata/' + name
                 mimetype = 'application/octet-stream'
-                odtpkg.insert_stream(f, path, mimetype)
+                with closing(bindata[name].open()) as f:
+                    odtpkg.insert_stream(f, path, mimetype)
 
     @cached_property
     def transform_xhwp5_to_styles(self):
-- 
2.43.0


From 72777eefff65da8d9da1f1c5e2d3ef1e0bb6a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 26/62] fix: hwp5proc: close the document on every exit

---
 src/hwp5/proc/cat.py     | 27 ++++++++++++++-------------
 src/hwp5/proc/find.py    |  9 +++++----
 src/hwp5/proc/ls.py      |  5 +++--
 src/hwp5/proc/models.py  | 17 ++++++++++++-----
 src/hwp5/proc/records.py | 23 ++++++++++++++---------
 src/hwp5/proc/unpack.py  | 16 ++++++++--------
 src/hwp5/proc/version.py |  7 ++++---
 src/hwp5/proc/xml.py     |  7 ++++---
 8 files changed, 64 insertions(+), 47 deletions(-)

diff --git a/src/hwp5/proc/cat.py b/src/hwp5/proc/cat.py
index 341f622..f97b95f 100644
--- a/src/hwp5/proc/cat.py
+++ b/src/hwp5/proc/cat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 import sys
 
 from ..cli import open_hwpfile
@@ -34,19 +35,19 @@ def main(args):
     else:
         output_fp = sys.stdout.buffer
 
-    hwp5file = open_hwpfile(args)
-    stream = open_storage_item(hwp5file, args.stream)
-    f = stream.open()
-    try:
-        while True:
-            data = f.read(4096)
-            if data:
-                output_fp.write(data)
-            else:
-                return
-    finally:
-        if hasattr(f, 'close'):
-            f.close()
+    with closing(open_hwpfile(args)) as hwp5file:
+        stream = open_storage_item(hwp5file, args.stream)
+        f = stream.open()
+        try:
+            while True:
+                data = f.read(4096)
+                if data:
+                    output_fp.write(data)
+                else:
+                    return
+        finally:
+            if hasattr(f, 'close'):
+                f.close()
 
 
 def cat_argparser(subparsers, _):
diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 4fcdd89..710f963 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -59,6 +59,7 @@ incompletely::
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 from functools import partial
 import logging
 import itertools
@@ -202,10 +203,10 @@ def conditions_from_args(args):
 
 
 def hwp5file_models(filename):
-    hwp5file = Hwp5File(filename)
-    for model in flat_models(hwp5file):
-        model['filename'] = filename
-        yield model
+    with closing(Hwp5File(filename)) as hwp5file:
+        for model in flat_models(hwp5file):
+            model['filename'] = filename
+            yield model
 
 
 def flat_models(hwp5file, **kwargs):
diff --git a/src/hwp5/proc/ls.py b/src/hwp5/proc/ls.py
index ed68733..d290589 100644
--- a/src/hwp5/proc/ls.py
+++ b/src/hwp5/proc/ls.py
@@ -85,14 +85,15 @@ Example: List virtual streams too::
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 
 from ..storage import printstorage
 from ..cli import open_hwpfile
 
 
 def main(args):
-    hwpfile = open_hwpfile(args)
-    printstorage(hwpfile)
+    with closing(open_hwpfile(args)) as hwpfile:
+        printstorage(hwpfile)
 
 
 def ls_argparser(subparsers, _):
diff --git a/src/hwp5/proc/models.py b/src/hwp5/proc/models.py
index 4d95626..ae4def5 100644
--- a/src/hwp5/proc/models.py
+++ b/src/hwp5/proc/models.py
@@ -19,6 +19,8 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
+from contextlib import contextmanager
 from itertools import islice
 import sys
 
@@ -38,7 +40,11 @@ PY2 = sys.version_info.major == 2
 
 
 def main(args):
-    stream = stream_from_args(args)
+    with open_stream_from_args(args) as stream:
+        print_stream(args, stream)
+
+
+def print_stream(args, stream):
     if args.events:
         for event, item in stream.parse_model_events():
             type = item['type'].__name__
@@ -155,13 +161,14 @@ def models_argparser(subparsers, _):
     return parser
 
 
-def stream_from_args(args):
+@contextmanager
+def open_stream_from_args(args):
     filename = args.hwp5file
     if filename:
         # TODO: args.record_stream is None
         streamname = args.record_stream
-        hwpfile = Hwp5File(filename)
-        return parse_recordstream_name(hwpfile, streamname)
+        with closing(Hwp5File(filename)) as hwpfile:
+            yield parse_recordstream_name(hwpfile, streamname)
     else:
         version = args.file_format_version or '5.0.0.0'
         version = version.split('.')
@@ -172,7 +179,7 @@ def stream_from_args(args):
         else:
             stdin_binary = sys.stdin.buffer
 
-        return ModelStream(Open2Stream(lambda: stdin_binary), version)
+        yield ModelStream(Open2Stream(lambda: stdin_binary), version)
 
 
 def models_from_args(args):
diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..2efeb65 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 import sys
 
 from ..cli import parse_recordstream_name
@@ -33,6 +34,19 @@ PY2 = sys.version_info.major == 2
 
 
 def main(args):
+    filename = args.hwp5file
+    if filename:
+        with closing(Hwp5File(filename)) as hwpfile:
+            # TODO: args.record_stream is None
+            streamname = args.record_stream
+            stream = parse_recordstream_name(hwpfile, streamname)
+            print_records(args, stream)
+    else:
+        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        print_records(args, stream)
+
+
+def print_records(args, stream):
     if PY2:
         stdout_text = sys.stdout
         stdout_binary = sys.stdout
@@ -40,15 +54,6 @@ def main(args):
         stdout_text = sys.stdout
         stdout_binary = sys.stdout.buffer
 
-    filename = args.hwp5file
-    if filename:
-        hwpfile = Hwp5File(filename)
-        # TODO: args.record_stream is None
-        streamname = args.record_stream
-        stream = parse_recordstream_name(hwpfile, streamname)
-    else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
-
     opts = dict()
     rng = args.range
     if rng:
diff --git a/src/hwp5/proc/unpack.py b/src/hwp5/proc/unpack.py
index 630b870..492e658 100644
--- a/src/hwp5/proc/unpack.py
+++ b/src/hwp5/proc/unpack.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 import os.path
 
 from .. import storage
@@ -27,14 +28,13 @@ from ..cli import open_hwpfile
 
 def main(args):
     filename = args.hwp5file
-    hwp5file = open_hwpfile(args)
-
-    outdir = args.out_directory
-    if outdir is None:
-        outdir, ext = os.path.splitext(os.path.basename(filename))
-    if not os.path.exists(outdir):
-        os.mkdir(outdir)
-    storage.unpack(hwp5file, outdir)
+    with closing(open_hwpfile(args)) as hwp5file:
+        outdir = args.out_directory
+        if outdir is None:
+            outdir, ext = os.path.splitext(os.path.basename(filename))
+        if not os.path.exists(outdir):
+            os.mkdir(outdir)
+        storage.unpack(hwp5file, outdir)
 
 
 def unpack_argparser(subparsers, _):
diff --git a/src/hwp5/proc/version.py b/src/hwp5/proc/version.py
index c6d5aa6..a0ce8b4 100644
--- a/src/hwp5/proc/version.py
+++ b/src/hwp5/proc/version.py
@@ -19,14 +19,15 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 
 from ..filestructure import Hwp5File
 
 
 def main(args):
-    hwp5file = Hwp5File(args.hwp5file)
-    h = hwp5file.fileheader
-    print('%d.%d.%d.%d' % h.version)
+    with closing(Hwp5File(args.hwp5file)) as hwp5file:
+        h = hwp5file.fileheader
+        print('%d.%d.%d.%d' % h.version)
 
 
 def version_argparser(subparsers, _):
diff --git a/src/hwp5/proc/xml.py b/src/hwp5/proc/xml.py
index d91e0f1..8c7f390 100644
--- a/src/hwp5/proc/xml.py
+++ b/src/hwp5/proc/xml.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 from functools import partial
 import logging
 
@@ -70,9 +71,9 @@ def main(args):
         xmllint(c14n=True, check=True),
     ] if not args.no_validate_wellformed else [])
 
-    hwp5file = Hwp5File(args.hwp5file)
-    with open_dest() as output:
-        xmldump(hwp5file, output)
+    with closing(Hwp5File(args.hwp5file)) as hwp5file:
+        with open_dest() as output:
+            xmldump(hwp5file, output)
 
 
 def xml_argparser(subparsers, _):
-- 
2.43.0


From 4c1e360e81967d18f55c5746a3d1da3be93754f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 27/62] fix: close encoded streams after decoding them

---
 src/hwp5/filestructure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 093d901..0f9e03a 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -129,7 +129,8 @@ def storage_is_hwp5file(stg):
 class CompressedStream(ItemWrapper):
 
     def open(self):
-        return decompress(self.wrapped.open())
+        with closing(self.wrapped.open()) as f:
+            return decompress(f)
 
 
 class CompressedStorage(StorageWrapper):
@@ -225,8 +226,8 @@ class Hwp5DistDocStream(VersionSensitiveItem):
 
     def open(self):
         from hwp5.distdoc import decode
-        encodedstream = self.wrapped.open()
-        return decode(encodedstream)
+        with closing(self.wrapped.open()) as encodedstream:
+            return decode(encodedstream)
 
     def head_record(self):
         from .recordstream import read_record
-- 
2.43.0


From dc18375d5286512163ac33d14ba9795c317c4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 28/62] fix: close the file if it turns out to be no document

---
 src/hwp5/filestructure.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 0f9e03a..0f82ad9 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -202,7 +202,13 @@ class Hwp5FileBase(ItemConversionStorage):
             except InvalidOleStorageError:
                 raise InvalidHwp5FileError('Not an OLE2 Compound Binary File.')
 
-        if not storage_is_hwp5file(stg):
+        try:
+            valid = storage_is_hwp5file(stg)
+        except Exception:
+            if opened is not None:
+                opened.close()
+            raise
+        if not valid:
             if opened is not None:
                 opened.close()
             errormsg = 'Not an HWP Document format v5 storage.'
@@ -549,8 +555,15 @@ class Hwp5File(ItemConversionStorage):
     '''
 
     def __init__(self, stg):
-        stg = Hwp5FileBase(stg)
+        base = Hwp5FileBase(stg)
+        try:
+            self.wrap_layers(base)
+        except Exception:
+            if isinstance(stg, basestring):
+                base.close()
+            raise
 
+    def wrap_layers(self, stg):
         if stg.header.flags.password:
             stg = Hwp5PasswordProtectedDoc(stg)
 
-- 
2.43.0


From 5282e0b5494e3cbf4b7ad5e4f2e9aff6e9fd428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 29/62] fix: hwp5proc header: close the document if its header
 can't be read

---
 src/hwp5/proc/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/proc/header.py b/src/hwp5/proc/header.py
index eea0f2a..d27d0e9 100644
--- a/src/hwp5/proc/header.py
+++ b/src/hwp5/proc/header.py
@@ -34,8 +34,8 @@ def main(args):
 
     from hwp5.filestructure import Hwp5File
     hwp5file = Hwp5File(args.hwp5file)
-    f = hwp5file.header.open_text()
     try:
+        f = hwp5file.header.open_text()
         shutil.copyfileobj(f, output_fp)
     finally:
         hwp5file.close()
-- 
2.43.0


From e21e5092ff073fa5d1f8cc009a4e3bba59f9ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:03 +0000
Subject: [PATCH 30/62] fix: keep the contents of sections without a section
 definition

---
 src/hwp5/xmlmodel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..15ede11 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -275,7 +275,11 @@ def wrap_section(event_prefixed_mac, sect_id=None):
                 started = True
             else:
                 starting_buffer.append((event, item))
-    yield ENDEVENT, sectiondef
+    if started:
+        yield ENDEVENT, sectiondef
+    else:
+        for evented_item in starting_buffer:
+            yield evented_item
 
 
 class ColumnSet:
@@ -296,7 +300,7 @@ def wrap_columns(event_prefixed_mac):
                 split = Paragraph.SplitFlags(split)
 
                 if split.new_columnsdef:
-                    if stack[-1][0] is ColumnSet:
+                    if stack and stack[-1][0] is ColumnSet:
                         yield ENDEVENT, stack.pop()
 
                     columns = (ColumnSet, {}, {})
@@ -314,6 +318,9 @@ def wrap_columns(event_prefixed_mac):
 
         yield event, item
 
+    while stack:
+        yield ENDEVENT, stack.pop()
+
 
 def make_extended_controls_inline(event_prefixed_mac, stack=None):
     ''' inline extended-controls into paragraph texts '''
-- 
2.43.0


From 346a825989eeb8aaac6e35db5f09ae054744df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:03 +0000
Subject: [PATCH 31/62] fix: close table rows properly in tables that have rows
 without cells

---
 src/hwp5/xmlmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 15ede11..dbd3c1f 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -477,7 +477,7 @@ def rstbody_tablebody(event, stack, item, attributes, context):
         for cols in attributes.pop('rowcols'):
             if cols == 1:
                 rowcols.append(ROW_OPEN | ROW_CLOSE)
-            else:
+            elif cols > 1:
                 rowcols.append(ROW_OPEN)
                 for i in range(0, cols - 2):
                     rowcols.append(0)
-- 
2.43.0


From 49a04a8ea37e2e65da7c423a77bb6c13a1cd2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:40 +0000
Subject: [PATCH 32/62] fix: keep controls that no control character refers to

---
 src/hwp5/xmlmodel.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index dbd3c1f..e7de936 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -348,23 +348,33 @@ def meci_paragraph(event, stack, item):
         stack.append(dict())
         yield STARTEVENT, item
     else:
+        # controls which are not referred to by any control character
+        paragraph = stack[-1]
+        for control_subtree in paragraph.get(Control, ()):
+            for x in meci_control(stack, control_subtree):
+                yield x
         yield ENDEVENT, item
         stack.pop()
 
 
+def meci_control(stack, control_subtree):
+    tev = tree_events(*control_subtree)
+    # to evade the Control/STARTEVENT trigger
+    # in parse_models_pass3()
+    yield next(tev)
+
+    for k in make_extended_controls_inline(tev, stack):
+        yield k
+
+
 def meci_controlchar(event, stack, item, attributes):
     if event is STARTEVENT:
         if attributes['kind'] is ControlChar.EXTENDED:
             paragraph = stack[-1]
             paragraph_controls = paragraph.get(Control)
             control_subtree = paragraph_controls.pop(0)
-            tev = tree_events(*control_subtree)
-            # to evade the Control/STARTEVENT trigger
-            # in parse_models_pass3()
-            yield next(tev)
-
-            for k in make_extended_controls_inline(tev, stack):
-                yield k
+            for x in meci_control(stack, control_subtree):
+                yield x
         else:
             yield STARTEVENT, item
             yield ENDEVENT, item
-- 
2.43.0


From 92ca9c4c92ed31e5c4e051de039296f4dcd6aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:42 +0000
Subject: [PATCH 33/62] fix: write mimetype as the first entry of ODF packages

---
 src/hwp5/hwp5odt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 9bf8cf0..5c4ad04 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -24,6 +24,7 @@ from contextlib import contextmanager
 from contextlib import closing
 from functools import partial
 from io import BytesIO
+from zipfile import ZIP_STORED
 import gettext
 import io
 import logging
@@ -251,6 +252,12 @@ class ODTPackage(object):
             zipfile = path_or_zipfile
         self.zf = zipfile
 
+        # should be the first entry of the package, without compression
+        # (OpenDocument v1.2 part 3, 3.3 MIME Media Type)
+        self.zf.writestr('mimetype',
+                         'application/vnd.oasis.opendocument.text',
+                         ZIP_STORED)
+
     def insert_path(self, src_path, path, media_type):
         with io.open(src_path, 'rb') as f:
             self.insert_stream(f, path, media_type)
@@ -267,7 +274,6 @@ class ODTPackage(object):
         manifest_xml(manifest, self.files)
         manifest.seek(0)
         self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
-        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
 
         self.zf.close()
 
-- 
2.43.0


From 4851035d17101f2babd11cfac4ccb5942ecc6675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:42 +0000
Subject: [PATCH 34/62] fix: OleStorage delivers nested storages and finds
 every name it delivers

---
 src/hwp5/plat/olefileio.py | 73 ++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index 9e795c9..98a2bf9 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -74,17 +74,29 @@ def import_OleFileIO():
         return OleFileIO
 
 
+def path_segments(path):
+    ''' names in a path, which is either a string or a sequence of names
+
+    Names of storages and streams in a (malformed) file may contain '/'.
+    '''
+    if isinstance(path, (list, tuple)):
+        return list(path)
+    if path == '' or path == '/':
+        return []
+    return path.split('/')
+
+
 class OleStorageItem(object):
 
     def __init__(self, olefile, path, parent=None):
         self.olefile = olefile
-        self.path = path  # path DOES NOT end with '/'
+        self.segments = path_segments(path)
+        self.path = '/'.join(self.segments)  # path DOES NOT end with '/'
 
     def get_name(self):
-        if self.path == '':
+        if not self.segments:
             return None
-        segments = self.path.split('/')
-        return segments[-1]
+        return self.segments[-1]
 
     name = cached_property(get_name)
 
@@ -92,7 +104,7 @@ class OleStorageItem(object):
 class OleStream(OleStorageItem):
 
     def open(self):
-        return self.olefile.openstream(self.path)
+        return self.olefile.openstream(self.segments)
 
 
 class OleStorage(OleStorageItem):
@@ -101,6 +113,7 @@ class OleStorage(OleStorageItem):
     :param olefile: an OLE2 Compound Binary File.
     :type olefile: an OleFileIO instance or an argument to OleFileIO()
     :param path: internal path in the olefile. Should not end with '/'.
+        May be a list of names, too.
     :raises: `InvalidOleStorageError` when `olefile` is not valid OLE2 format.
     '''
 
@@ -120,51 +133,41 @@ class OleStorage(OleStorageItem):
         OleStorageItem.__init__(self, olefile, path, parent)
 
     def __iter__(self):
-        return olefile_listdir(self.olefile, self.path)
+        return olefile_listdir(self.olefile, self.segments)
 
     def __getitem__(self, name):
-        if self.path == '' or self.path == '/':
-            path = name
-        else:
-            path = self.path + '/' + name
+        path = self.segments + [name]
         if not self.olefile.exists(path):
-            raise KeyError('%s not found' % path)
+            raise KeyError('%s not found' % '/'.join(path))
         t = self.olefile.get_type(path)
         if t == 1:  # Storage
             return OleStorage(self.olefile, path, self)
         elif t == 2:  # Stream
             return OleStream(self.olefile, path, self)
         else:
-            raise KeyError('%s is invalid' % path)
+            raise KeyError('%s is invalid' % '/'.join(path))
 
     def close(self):
         # if this is root, close underlying olefile
-        if self.path == '':
+        if not self.segments:
             # old version of OleFileIO has no close()
             if hasattr(self.olefile, 'close'):
                 self.olefile.close()
 
 
 def olefile_listdir(olefile, path):
-    if path == '' or path == '/':
-        # we use a list instead of a set
-        # for python 2.3 compatibility
-        yielded = []
-
-        for stream in olefile.listdir():
-            top_item = stream[0]
-            if top_item in yielded:
-                continue
-            yielded.append(top_item)
-            yield top_item
-        return
-
-    if not olefile.exists(path):
-        raise IOError('%s not exists' % path)
-    if olefile.get_type(path) != 1:
-        raise IOError('%s not a storage' % path)
-    path_segments = path.split('/')
-    for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+    path = path_segments(path)
+    if path:
+        if not olefile.exists(path):
+            raise IOError('%s not exists' % '/'.join(path))
+        if olefile.get_type(path) != 1:
+            raise IOError('%s not a storage' % '/'.join(path))
+
+    parent = [name.lower() for name in path]
+    yielded = []
+    for item in olefile.listdir(streams=True, storages=True):
+        if len(item) != len(path) + 1 or item[-1] in yielded:
+            continue
+        if [name.lower() for name in item[:-1]] == parent:
+            yielded.append(item[-1])
+            yield item[-1]
-- 
2.43.0


From 61d6bdef9d2fcb274473ca4962dadab986783fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 35/62] fix: FileSystemStorage finds only items of its own
 directory

---
 src/hwp5/storage/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/storage/fs.py b/src/hwp5/storage/fs.py
index 226311d..5189c71 100644
--- a/src/hwp5/storage/fs.py
+++ b/src/hwp5/storage/fs.py
@@ -33,6 +33,8 @@ class FileSystemStorage(object):
         return iter(sorted(os.listdir(self.path)))
 
     def __getitem__(self, name):
+        if name in ('', os.curdir, os.pardir) or os.path.basename(name) != name:
+            raise KeyError(name)
         path = os.path.join(self.path, name)
         if os.path.isdir(path):
             return FileSystemStorage(path)
-- 
2.43.0


From ef9de4560bd3d1dd3d070b24781d893e4ccdea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:08 +0000
Subject: [PATCH 36/62] fix: leave out all characters that XML does not allow

---
 src/hwp5/xmlformat.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..5c544c8 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -53,6 +54,15 @@ if PY3:
 logger = logging.getLogger(__name__)
 
 
+# characters that XML 1.0 documents can't contain, not even by reference;
+# in Python 2, surrogates may be halves of characters
+ILLEGAL_XML_CHARS = re.compile(
+    '[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff' +
+    ('\ud800-\udfff' if PY3 else '') +
+    ']'
+)
+
+
 def xmlattrval(value):
     if isinstance(value, basestring):
         return value
@@ -256,12 +266,12 @@ def xmlevents_to_textchunks(xmlevents):
                 yield n
                 yield '='
                 v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
+                v = ILLEGAL_XML_CHARS.sub('', v)
                 yield v
             yield '>'
         elif event is Text:
             text = escape(item)
-            text = text.replace('\x00', '')
+            text = ILLEGAL_XML_CHARS.sub('', text)
             yield text
         elif event is ENDEVENT:
             yield '</'
-- 
2.43.0


From 81b44914d62f03762a0ed5d34de0c9c2e7e09193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 37/62] fix: write flat XML dumps in Python 3

---
 src/hwp5/xmldump_flat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..5c2c0d3 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,15 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
-- 
2.43.0


From 705c0c2822bc863f272e3043df01f7bf7f258d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 38/62] fix: write flat XML dumps of undefined enum values

---
 src/hwp5/xmldump_flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 5c2c0d3..cf67990 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -204,7 +204,7 @@ def xmlevents_from_modelevents(model_events):  # noqa
                         if isinstance(bitfield_type, EnumType):
                             atrs = {
                                 'type': bitfield_type.__name__,
-                                'value': value.name
+                                'value': value.name or unicode(int(value))
                             }
                             yield STARTEVENT, ('enum', atrs)
                             yield ENDEVENT, 'enum'
-- 
2.43.0


From 59802d26116e491f2414fefda761d9fc6e40b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 39/62] fix: return the adapters of XSLT and RelaxNG backends
 that can only process files

---
 src/hwp5/plat/__init__.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index 26ac23b..9fc012b 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -23,8 +23,10 @@ from binascii import b2a_hex
 from functools import partial
 from subprocess import CalledProcessError
 from subprocess import Popen
+import io
 import logging
 import os
+import shutil
 import subprocess
 import tempfile
 
@@ -66,8 +68,25 @@ def get_xslt_compile():
                 return xslt_compile
             xslt = getattr(module, 'xslt', None)
             if xslt:
-                def xslt_compile(xsl_path):
-                    return partial(xslt, xsl_path)
+                return partial(xslt_compile_with_files, xslt)
+
+
+def xslt_compile_with_files(xslt, xsl_path, **params):
+    if params:
+        raise NotImplementedError('parameters of stylesheets')
+
+    def transform_into_stream(input, output):
+        fd, name = tempfile.mkstemp()
+        try:
+            os.close(fd)
+            result = xslt(xsl_path, input, name)
+            with io.open(name, 'rb') as f:
+                shutil.copyfileobj(f, output)
+            return result
+        finally:
+            os.unlink(name)
+
+    return transform_into_stream
 
 
 def get_relaxng():
@@ -87,10 +106,6 @@ def get_relaxng_compile():
             relaxng_compile = getattr(module, 'relaxng_compile', None)
             if relaxng_compile:
                 return relaxng_compile
-            relaxng = getattr(module, 'relaxng', None)
-            if relaxng:
-                def relaxng_compile(rng_path):
-                    return partial(relaxng, rng_path)
 
 
 def get_olestorage_class():
-- 
2.43.0


From 36f624e7616c8ba8401281ec4be5b2a4c6750c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 40/62] fix: write the output of xsltproc and xmllint to any
 kind of stream

---
 src/hwp5/plat/xsltproc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 10a8422..fc34415 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from subprocess import CalledProcessError
 from subprocess import Popen
 import logging
+import shutil
 import subprocess
 
 
@@ -95,8 +96,12 @@ class XSLT:
         '''
         cmd = self.cmd + [self.xsl_path, input]
         logger.info('%r', cmd)
-        p = Popen(cmd, stdout=output)
-        p.wait()
+        p = Popen(cmd, stdout=subprocess.PIPE)
+        try:
+            with p.stdout:
+                shutil.copyfileobj(p.stdout, output)
+        finally:
+            p.wait()
         if p.returncode == 0:
             return dict()
         else:
-- 
2.43.0


From 1a642d245dfdd81f85a1d3755fc1cecd7851ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 41/62] fix: RelaxNG of the xmllint backend has the methods and
 errors of the lxml backend

---
 src/hwp5/plat/xmllint.py | 59 +++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 6a2445a..b8e23d7 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -22,7 +22,12 @@ from __future__ import unicode_literals
 from contextlib import contextmanager
 from subprocess import CalledProcessError
 import logging
+import os
+import shutil
 import subprocess
+import tempfile
+
+from ..errors import ValidationFailed
 
 
 logger = logging.getLogger(__name__)
@@ -64,18 +69,7 @@ def disable():
 
 
 def relaxng(rng_path, inp_path):
-    from subprocess import Popen
-    args = [executable, '--noout', '--relaxng', rng_path, inp_path]
-    p = Popen(args)
-    p.wait()
-    return p.returncode == 0
-
-
-def close_and_wait(p):
-    try:
-        p.stdin.close()
-    finally:
-        p.wait()
+    return RelaxNG(rng_path).validate(inp_path)
 
 
 def relaxng_compile(rng_path):
@@ -89,14 +83,35 @@ class RelaxNG:
 
     @contextmanager
     def validating_output(self, output):
-        args = [executable, '--relaxng', self.rng_path, '-']
-        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=output)
+        fd, name = tempfile.mkstemp()
+        try:
+            with os.fdopen(fd, 'wb+') as f:
+                yield f
+                f.flush()
+                if not self.validate(name):
+                    raise ValidationFailed('RelaxNG')
+                f.seek(0)
+                shutil.copyfileobj(f, output)
+        finally:
+            try:
+                os.unlink(name)
+            except Exception as e:
+                logger.warning('%s: can\'t unlink %s', e, name)
+
+    def validate(self, input):
+        args = [executable, '--noout', '--relaxng', self.rng_path, input]
+        p = subprocess.Popen(args)
+        p.wait()
+        return p.returncode == 0
+
+    def validate_stream(self, input):
+        args = [executable, '--noout', '--relaxng', self.rng_path, '-']
+        p = subprocess.Popen(args, stdin=subprocess.PIPE)
         try:
-            yield p.stdin
-        except:
-            close_and_wait(p)
-            raise
-        else:
-            close_and_wait(p)
-            if p.returncode != 0:
-                raise Exception('RelaxNG validation failed')
+            shutil.copyfileobj(input, p.stdin)
+        finally:
+            try:
+                p.stdin.close()
+            finally:
+                p.wait()
+        return p.returncode == 0
-- 
2.43.0


From b868e358d3bf4b92779cc91704acd0f86f859409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 42/62] fix: the GSF backend works in Python 3

---
 src/hwp5/plat/gir_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..857f71f 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
-- 
2.43.0


From 851ea1df09e71633f9283867902624f2f4330049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 43/62] fix: streams of the POIFS backend seek from their end
 and backwards

---
 src/hwp5/plat/jython_poifs.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/plat/jython_poifs.py b/src/hwp5/plat/jython_poifs.py
index a85e374..e4e3b2f 100644
--- a/src/hwp5/plat/jython_poifs.py
+++ b/src/hwp5/plat/jython_poifs.py
@@ -122,17 +122,17 @@ class FileFromDocumentInputStream(object):
         return data
 
     def seek(self, offset, whence=0):
-        dis = self.dis
         if whence == 0:
-            dis.reset()
-            dis.skip(offset)
+            pos = offset
         elif whence == 1:
-            dis.skip(offset)
+            pos = self.tell() + offset
         elif whence == 2:
-            dis.reset()
-            dis.skip(self.size - offset)
+            pos = self.size + offset
         else:
-            raise ValueError('invalid whence: %s', whence)
+            raise ValueError('invalid whence: %s' % whence)
+        dis = self.dis
+        dis.reset()
+        dis.skip(pos)
 
     def tell(self):
         return self.size - self.dis.available()
-- 
2.43.0


From c1442043610962f55a873a68ce3a05e37b920273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 44/62] fix: texts of automatic numbers in Python 3

---
 src/hwp5/binmodel/controls/numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/controls/numbering.py b/src/hwp5/binmodel/controls/numbering.py
index b6a297b..a315ad9 100644
--- a/src/hwp5/binmodel/controls/numbering.py
+++ b/src/hwp5/binmodel/controls/numbering.py
@@ -61,7 +61,7 @@ class AutoNumbering(NumberingControl):
         if self.flags.kind == self.Kind.FOOTNOTE:
             if self.suffix != u'\x00':
                 suffix = self.suffix
-        return prefix + unicode(self.number) + suffix
+        return prefix + u'%s' % self.number + suffix
 
 
 class NewNumbering(NumberingControl):
-- 
2.43.0


From 20c531be20952c0c69328dbd0e590910143173bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 45/62] fix: hwp5view builds file URLs in Python 3

---
 src/hwp5/hwp5view.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/hwp5view.py b/src/hwp5/hwp5view.py
index 9458dfa..75f5302 100644
--- a/src/hwp5/hwp5view.py
+++ b/src/hwp5/hwp5view.py
@@ -44,7 +44,6 @@ import logging
 import os.path
 import shutil
 import sys
-import urllib
 
 from . import __version__ as version
 from .cli import init_logger
@@ -232,5 +231,9 @@ def hwp5html(filename, out_dir):
 
 
 def fspath2url(path):
+    try:
+        from urllib.request import pathname2url
+    except ImportError:
+        from urllib import pathname2url
     path = os.path.abspath(path)
-    return 'file://' + urllib.pathname2url(path)
+    return 'file://' + pathname2url(path)
-- 
2.43.0


From e1fefc52f922ecb8d9f6e0ec28f59e0db9999edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 46/62] fix: GeneratorReader.read() never returns more than the
 size asked for

---
 src/hwp5/utils.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 7f54cf5..ec8c160 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -163,19 +163,17 @@ class GeneratorReader(object):
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        if len(self.buffer) < size:
+            for data in self.gen:
+                self.buffer += data
+                if len(self.buffer) >= size:
+                    break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -199,21 +197,18 @@ class GeneratorTextReader(object):
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        if len(self.buffer) < size:
+            for data in self.gen:
+                self.buffer += data
+                if len(self.buffer) >= size:
+                    break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From 4b6cfa545a0f4a729decc594a409ee3245f9eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 47/62] fix: syntax highlighting of bytes written to it

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index ec8c160..ad5097d 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -365,7 +365,7 @@ def syntaxhighlight_pygments(mimetype):
 def make_temp_file():
     fd, name = tempfile.mkstemp()
     with unlink_path(name):
-        with os.fdopen(fd, 'w+') as f:
+        with os.fdopen(fd, 'wb+') as f:
             yield f
 
 
-- 
2.43.0


From eea98c41f8afe38710cef9926d264d1ed56d4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 48/62] fix: hwp5proc models --format takes texts other than
 latin-1

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index ad5097d..03b46ba 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -127,7 +127,7 @@ def unicode_unescape(s):
     :rtype:
         unicode
     '''
-    return s.encode('utf-8').decode('unicode_escape')
+    return s.encode('raw_unicode_escape').decode('unicode_escape')
 
 
 def transcode(backend_stream, backend_encoding, frontend_encoding,
-- 
2.43.0


From 202ae0b703910d06198dd75fd18deb9102b0b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 49/62] fix: JSON arrays without elements

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 03b46ba..a024a62 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From a9d11670d5926f4878163c92afd47695b3210846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 50/62] fix: hwp5proc xml refuses unknown formats

---
 src/hwp5/proc/xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/proc/xml.py b/src/hwp5/proc/xml.py
index 8c7f390..3e39cc6 100644
--- a/src/hwp5/proc/xml.py
+++ b/src/hwp5/proc/xml.py
@@ -109,6 +109,7 @@ def xml_argparser(subparsers, _):
     parser.add_argument(
        '--format',
        metavar='<format>',
+       choices=['flat', 'nested'],
        help=_('"flat", "nested" (default: "nested")'),
     )
     parser.add_argument(
-- 
2.43.0


From 2b7dd8e4919a34a4bdd3fcbae208526f7897f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:03 +0000
Subject: [PATCH 51/62] fix: hwp5spec runs again

---
 src/hwp5/binspec.py | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/hwp5/binspec.py b/src/hwp5/binspec.py
index eaa9dc3..57e25d3 100644
--- a/src/hwp5/binspec.py
+++ b/src/hwp5/binspec.py
@@ -340,21 +340,36 @@ def define_primitive_type(t):
 
 
 def main():
-    from docopt import docopt
+    from argparse import ArgumentParser
     from hwp5 import __version__
-    from hwp5.proc import rest_to_docopt
 
-    doc = rest_to_docopt(__doc__)
-    args = docopt(doc, version=__version__)
-
-    if '--loglevel' in args:
-        loglevel = args['--loglevel'].lower()
-        loglevel = dict(error=logging.ERROR,
-                        warning=logging.WARNING,
-                        info=logging.INFO,
-                        debug=logging.DEBUG).get(loglevel, logging.WARNING)
-        logger.setLevel(loglevel)
-        logger.addHandler(logging.StreamHandler())
+    parser = ArgumentParser(
+        prog='hwp5spec',
+        description='Generate HWPv5 Binary Spec Document',
+    )
+    parser.add_argument(
+        '--version',
+        action='version',
+        version=__version__,
+    )
+    subparser = parser.add_subparsers(dest='format').add_parser('xml')
+    subparser.add_argument(
+        '--loglevel',
+        metavar='<loglevel>',
+        default='warning',
+        help='Set log level [default: warning]',
+    )
+    args = parser.parse_args()
+    if args.format is None:
+        parser.error('xml expected')
+
+    loglevel = dict(error=logging.ERROR,
+                    warning=logging.WARNING,
+                    info=logging.INFO,
+                    debug=logging.DEBUG).get(args.loglevel.lower(),
+                                             logging.WARNING)
+    logger.setLevel(loglevel)
+    logger.addHandler(logging.StreamHandler())
 
     from hwp5 import binmodel
     import sys
@@ -416,4 +431,4 @@ def main():
         root.append(define_primitive_type(t))
 
     doc = ET.ElementTree(root)
-    doc.write(sys.stdout, 'utf-8')
+    doc.write(getattr(sys.stdout, 'buffer', sys.stdout), 'utf-8')
-- 
2.43.0


From 5f3259b6715a3ecfbdb92188e0ccf095766a8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 52/62] fix: hwp5spec writes the whole specification in Python
 3

---
 src/hwp5/binspec.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/binspec.py b/src/hwp5/binspec.py
index 57e25d3..7feef37 100644
--- a/src/hwp5/binspec.py
+++ b/src/hwp5/binspec.py
@@ -96,8 +96,12 @@ def define_variable_length_array_type(array_type):
     return elem
 
 
+def reference_name(reference):
+    return reference.__doc__ or reference.__name__
+
+
 def define_x_array_type(t):
-    elem = ET.Element('XArrayType', dict(size=t.count_reference.__doc__))
+    elem = ET.Element('XArrayType', dict(size=reference_name(t.count_reference)))
     item_type_elem = ET.SubElement(elem, 'item-type')
     item_type_elem.append(reference_type(t.itemtype))
     return elem
@@ -105,7 +109,7 @@ def define_x_array_type(t):
 
 def define_selective_type(t):
     elem = ET.Element('SelectiveType',
-                      dict(selector=t.selector_reference.__doc__))
+                      dict(selector=reference_name(t.selector_reference)))
     for k, v in t.selections.items():
         sel = ET.SubElement(elem, 'selection',
                             dict(when=make_condition_value(k)))
@@ -413,19 +417,19 @@ def main():
                 primitive_types.add(t)
 
     enum_types = list((t.__name__, t) for t in enum_types)
-    enum_types.sort()
+    enum_types.sort(key=lambda item: item[0])
     enum_types = (t for name, t in enum_types)
     for t in enum_types:
         root.append(define_enum_type(t))
 
     struct_types = list((t.__name__, t) for t in struct_types)
-    struct_types.sort()
+    struct_types.sort(key=lambda item: item[0])
     struct_types = (t for name, t in struct_types)
     for t in struct_types:
         root.append(define_struct_type(t))
 
     primitive_types = list((t.__name__, t) for t in primitive_types)
-    primitive_types.sort()
+    primitive_types.sort(key=lambda item: item[0])
     primitive_types = (t for name, t in primitive_types)
     for t in primitive_types:
         root.append(define_primitive_type(t))
-- 
2.43.0


From 1ba4e8707c7f806e78a9f44bf0956c828140bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:53 +0000
Subject: [PATCH 53/62] fix: bintype reads values in Python 3

---
 src/hwp5/bintype.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 77dbd87..1fdfa33 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -38,6 +38,11 @@ from .treeop import STARTEVENT, ENDEVENT
 from .treeop import iter_subevents
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    raw_input = input
+
+
 logger = logging.getLogger(__name__)
 
 
-- 
2.43.0


From 9febdfefe3dc8c1d017d333c72098d91dbd7a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:54 +0000
Subject: [PATCH 54/62] fix: report a missing record stream of hwp5proc records
 and models

---
 src/hwp5/cli.py          | 4 ++++
 src/hwp5/proc/models.py  | 1 -
 src/hwp5/proc/records.py | 1 -
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/cli.py b/src/hwp5/cli.py
index 1fb921e..0623aea 100644
--- a/src/hwp5/cli.py
+++ b/src/hwp5/cli.py
@@ -96,6 +96,10 @@ def open_hwpfile(args):
 
 
 def parse_recordstream_name(hwpfile, streamname):
+    if streamname is None:
+        logger = logging.getLogger('hwp5')
+        logger.error('a record stream should be specified')
+        raise SystemExit(1)
     if streamname == 'docinfo':
         return hwpfile.docinfo
     segments = streamname.split('/')
diff --git a/src/hwp5/proc/models.py b/src/hwp5/proc/models.py
index ae4def5..6068524 100644
--- a/src/hwp5/proc/models.py
+++ b/src/hwp5/proc/models.py
@@ -165,7 +165,6 @@ def models_argparser(subparsers, _):
 def open_stream_from_args(args):
     filename = args.hwp5file
     if filename:
-        # TODO: args.record_stream is None
         streamname = args.record_stream
         with closing(Hwp5File(filename)) as hwpfile:
             yield parse_recordstream_name(hwpfile, streamname)
diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 2efeb65..6fa44ba 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -37,7 +37,6 @@ def main(args):
     filename = args.hwp5file
     if filename:
         with closing(Hwp5File(filename)) as hwpfile:
-            # TODO: args.record_stream is None
             streamname = args.record_stream
             stream = parse_recordstream_name(hwpfile, streamname)
             print_records(args, stream)
-- 
2.43.0


From 35cca7eaa2ae5180fb61eb2c23b9ab2272502367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:54 +0000
Subject: [PATCH 55/62] fix: hwp5proc records reads bytes from the standard
 input

---
 src/hwp5/proc/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 6fa44ba..4d67fdc 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -41,7 +41,11 @@ def main(args):
             stream = parse_recordstream_name(hwpfile, streamname)
             print_records(args, stream)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        if PY2:
+            stdin_binary = sys.stdin
+        else:
+            stdin_binary = sys.stdin.buffer
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
         print_records(args, stream)
 
 
-- 
2.43.0


From ac4c03e910900bee7621670b7160e081ce5bd8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:28 +0000
Subject: [PATCH 56/62] fix: a record stream has no records in trees beyond its
 last

---
 src/hwp5/recordstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 504c69a..a76f9b2 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -160,7 +160,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
             records = islice(records, range[0], range[1])
         elif 'treegroup' in kwargs:
             groups = group_records_by_toplevel(records, group_as_list=True)
-            records = nth(groups, kwargs['treegroup'])
+            records = nth(groups, kwargs['treegroup'], [])
         return records
 
     def record(self, idx):
@@ -180,7 +180,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
     def records_treegroup(self, n):
         ''' returns list of records in `n'th top-level tree '''
         groups = self.records_treegrouped()
-        return nth(groups, n)
+        return nth(groups, n, [])
 
     def other_formats(self):
         return {'.records': self.records_json().open}
-- 
2.43.0


From b0b2d3c3580754fd54373898c265febd9abd93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:28 +0000
Subject: [PATCH 57/62] fix: all converters use the programs named by the
 environment

---
 src/hwp5/hwp5html.py | 3 +++
 src/hwp5/hwp5txt.py  | 3 +++
 src/hwp5/hwp5view.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index f1b883a..c784cd5 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -32,6 +32,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .transforms import BaseTransform
 from .utils import cached_property
 
@@ -128,6 +129,8 @@ def main():
     args = argparser.parse_args()
     init_logger(args)
 
+    init_with_environ()
+
     hwp5path = args.hwp5file
 
     html_transform = HTMLTransform()
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 3fa0edc..1523fa6 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -28,6 +28,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
 from .utils import make_open_dest_file
@@ -71,6 +72,8 @@ def main():
     args = argparser.parse_args()
     init_logger(args)
 
+    init_with_environ()
+
     hwp5path = args.hwp5file
 
     text_transform = TextTransform()
diff --git a/src/hwp5/hwp5view.py b/src/hwp5/hwp5view.py
index 75f5302..305fa15 100644
--- a/src/hwp5/hwp5view.py
+++ b/src/hwp5/hwp5view.py
@@ -47,6 +47,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .xmlmodel import Hwp5File
 from .hwp5html import HTMLTransform
 
@@ -67,6 +68,8 @@ def main():
     args = argparser.parse_args()
     init_logger(args)
 
+    init_with_environ()
+
     runner = runner_factory()
 
     with make_temporary_directory() as out_dir:
-- 
2.43.0


From 6319af74c2359956e7a1426ab5bd4478e4e8f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:54 +0000
Subject: [PATCH 58/62] fix: read property sets that have no dictionary

---
 src/hwp5/msoleprops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 4714c91..2765468 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -594,7 +594,10 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                displayName = (
+                    dictionary.get(propDesc.id, None)
+                    if dictionary is not None else None
+                )
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
-- 
2.43.0


From 3a2e86d827cb07fd2e57e9848dacd43fd07015a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 59/62] fix: FILETIME values are exact to the microsecond

---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 2765468..7c18eb3 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -97,7 +97,7 @@ class FILETIME(object):
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
-- 
2.43.0


From 01b7f0240e1fff3e885dc15a85dfc9af0d19b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 60/62] fix: the size of a property set is a number

---
 src/hwp5/msoleprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 7c18eb3..361309c 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -412,7 +412,7 @@ class PropertySet(object):
 class PropertySetHeader(Struct):
 
     def __init__(self, bytesize, propDescList):
-        self.bytesize = bytesize,
+        self.bytesize = bytesize
         self.propDescList = propDescList
 
     @classmethod
-- 
2.43.0


From 8ef064f904a6a438316bad81abbf8ceeb3d72f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:19 +0000
Subject: [PATCH 61/62] fix: read streams of UNO as bytes

---
 src/hwp5/plat/_uno/adapters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/_uno/adapters.py b/src/hwp5/plat/_uno/adapters.py
index 9c78ff9..24fdbd4 100644
--- a/src/hwp5/plat/_uno/adapters.py
+++ b/src/hwp5/plat/_uno/adapters.py
@@ -100,14 +100,14 @@ class FileFromStream(object):
         if hasattr(stream, 'readBytes'):
             def read(size=None):
                 if size is None:
-                    data = ''
+                    data = b''
                     while True:
-                        bytes = uno.ByteSequence('')
+                        bytes = uno.ByteSequence(b'')
                         n_read, bytes = stream.readBytes(bytes, 4096)
                         if n_read == 0:
                             return data
                         data += bytes.value
-                bytes = uno.ByteSequence('')
+                bytes = uno.ByteSequence(b'')
                 n_read, bytes = stream.readBytes(bytes, size)
                 return bytes.value
             self.read = read
-- 
2.43.0


From dbc868c0845b783f911c79afe22dc2992fd9437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:26 +0000
Subject: [PATCH 62/62] fix: hwp5proc xml fails when xmllint is killed by a
 signal

---
 src/hwp5/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index a024a62..dde3d61 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -26,6 +26,7 @@ import logging
 import os
 import shlex
 import shutil
+import signal
 import subprocess
 import sys
 import tempfile
@@ -318,7 +319,8 @@ def output_thru_subprocess(cmd, check=False):
                     p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
-            if check and retcode > 0:
+            # it is no failure if the reader of the output went away
+            if check and retcode not in (0, -getattr(signal, 'SIGPIPE', 0)):
                 raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
-- 
2.43.0

