From 6b81f00b103572bd05151bd2fbbad97c5d803d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 01/22] fix: derive the default docx name from the extension
 only

str.replace left names like 'A.PDF' unchanged, so the source pdf itself was
deleted and overwritten, and changed directory names containing '.pdf'.
---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index beb5d25..883754e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -102,7 +102,7 @@ class Converter:
             raise Exception('No parsed pages. Please parse page first.')
 
         # docx file to convert to        
-        filename = docx_filename if docx_filename else self.filename_pdf.replace('.pdf', '.docx')
+        filename = docx_filename if docx_filename else f'{os.path.splitext(self.filename_pdf)[0]}.docx'
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From 36a521fd50c4dc6c0f609447f4a578323a6b6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/22] fix: do not take an empty page selection for the entire
 document

An explicit selection matching no page (pages=[100], end=0, a worker without
any pages) fell through the truthiness checks and selected all pages.
---
 pdf2docx/converter.py | 6 +++---
 pdf2docx/main.py      | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 883754e..ffabe89 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -72,7 +72,7 @@ class Converter:
         Returns:
             Converter: self
         """        
-        indexes = page_indexes if page_indexes else range(len(self._pages))
+        indexes = range(len(self._pages)) if page_indexes is None else page_indexes
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
             print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
@@ -345,10 +345,10 @@ class Converter:
     @staticmethod
     def _page_indexes(start, end, pages, pdf_len):
         '''Parsing arguments.'''
-        if pages: 
+        if pages is not None: 
             indexes = [int(x) for x in pages if 0<=x<pdf_len]
         else:
-            end = end or pdf_len
+            if end is None: end = pdf_len
             s = slice(int(start), int(end))
             indexes = range(pdf_len)[s]
         
diff --git a/pdf2docx/main.py b/pdf2docx/main.py
index 0cc997d..8af82a0 100644
--- a/pdf2docx/main.py
+++ b/pdf2docx/main.py
@@ -25,8 +25,8 @@ class PDF2DOCX:
         # index starts from zero or one
         if not kwargs.get('zero_based_index', True):
             start = max(start-1, 0)
-            if end: end -= 1
-            if pages: pages = [i-1 for i in pages]
+            if end is not None: end = max(end-1, 0)
+            if pages is not None: pages = [i-1 for i in pages]
 
         cv = Converter(pdf_file)
         cv.convert(docx_file, start, end, pages, kwargs)
@@ -67,8 +67,8 @@ class PDF2DOCX:
         # index starts from zero or one
         if not kwargs.get('zero_based_index', True):
             start = max(start-1, 0)
-            if end: end -= 1
-            if pages: pages = [i-1 for i in pages]
+            if end is not None: end = max(end-1, 0)
+            if pages is not None: pages = [i-1 for i in pages]
 
         cv = Converter(pdf_file)
         tables = cv.extract_tables(start, end, pages, kwargs)
-- 
2.43.0


From 7f489a3074d12d1e499dc6289acf34db062f7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 03/22] fix: multi-processing converts the selected pages only

The workers were given the range from the smallest to the largest selected
index, so pages=[0,2,4] converted pages 0..4.
---
 pdf2docx/converter.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index ffabe89..f3c1f2a 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -288,9 +288,8 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        start, end = min(page_indexes), max(page_indexes)
         prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, start, end, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
+        vectors = [(i, cpu, list(page_indexes), self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
         pool = Pool()
@@ -313,21 +312,20 @@ class Converter:
         
         Args:
             vector (list): A list containing required parameters.
-                * 0  : segment number for current process                
+                * 0  : segment number for current process
                 * 1  : count of CPUs
-                * 2,3: whole pages range to process since sometimes need only parts of pdf pages                
-                * 4  : pdf filename
-                * 5  : configuration parameters
-                * 6  : json filename storing parsed results
+                * 2  : all page indexes to process since sometimes need only parts of pdf pages
+                * 3  : pdf filename
+                * 4  : configuration parameters
+                * 5  : json filename storing parsed results
         '''
         # recreate the arguments
-        idx, cpu, s, e, pdf_filename, kwargs, json_filename = vector
+        idx, cpu, all_indexes, pdf_filename, kwargs, json_filename = vector
 
         # worker
         cv = Converter(pdf_filename)
 
         # all pages to process
-        all_indexes = range(s, e+1)
         num_pages = len(all_indexes)
 
         # pages per segment
-- 
2.43.0


From f8b83e300d879156a147bdb76609a2fb7e657805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 04/22] fix: keep the exchange files of multi-processing in a
 private folder

Concurrent conversions in a same working directory overwrote each other's
pages-*.json, an existing file with such name was deleted, and files and
processes were left behind on failure.
---
 pdf2docx/converter.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index f3c1f2a..da5e92b 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -2,6 +2,7 @@
 
 import os
 import json
+from tempfile import TemporaryDirectory
 from time import perf_counter
 from multiprocessing import Pool, cpu_count
 import fitz
@@ -288,19 +289,19 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, list(page_indexes), self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
-        # start parsing processes
-        pool = Pool()
-        pool.map(self._parse_pages_per_cpu, vectors, 1)
-        
-        # restore parsed page data
-        for i in range(cpu):
-            filename = f'{prefix}-{i}.json'
-            if not os.path.exists(filename): continue            
-            self.deserialize(filename)
-            os.remove(filename)
+        # json files writing parsed pages per process: private to current conversion
+        with TemporaryDirectory() as folder:
+            filenames = [os.path.join(folder, f'pages-{i}.json') for i in range(cpu)]
+            vectors = [(i, cpu, list(page_indexes), self.filename_pdf, kwargs, filenames[i]) for i in range(cpu)]
+
+            # start parsing processes
+            with Pool() as pool:
+                pool.map(self._parse_pages_per_cpu, vectors, 1)
+            
+            # restore parsed page data
+            for filename in filenames:
+                if os.path.exists(filename): self.deserialize(filename)
         
         # create docx file
         self.make_docx(docx_filename)
-- 
2.43.0


From 10f770862d7c492dec9544c175326645eb854248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 05/22] fix: debug_page() doesn't change the passed-in
 parameters

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index da5e92b..31b375a 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -160,7 +160,7 @@ class Converter:
             debug_pdf (str): New pdf file storing layout information. Default to add prefix ``debug_``.
             layout_file (str): New json file storing parsed layout data. Default to ``layout.json``.
         '''
-        kwargs = kwargs if kwargs else {}
+        kwargs = dict(kwargs) if kwargs else {} # don't change the passed-in parameters
 
         # include debug information
         # fitz object in debug mode: plot page layout
-- 
2.43.0


From a4bd79b38cf17adc494774d5e759eb3d0a23cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 06/22] fix: read the serialized layout with the encoding it is
 written

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 31b375a..b0e7730 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -146,7 +146,7 @@ class Converter:
 
     def deserialize(self, filename:str):
         '''Load parsed pages from specified JSON file.'''
-        with open(filename, 'r') as f:
+        with open(filename, 'r', encoding='utf-8') as f:
             data = json.load(f)
         self.restore(data)
 
-- 
2.43.0


From adc290bed8e060ca0840e1c210672ca70f4b1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 07/22] fix: close the source pdf even if the conversion fails

---
 pdf2docx/converter.py |  8 +++++---
 pdf2docx/main.py      | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index b0e7730..c4d9b96 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -336,9 +336,11 @@ class Converter:
         page_indexes = [all_indexes[i] for i in range(seg_from, seg_to)]
 
         # parse pages and serialize data for further processing
-        cv.parse(page_indexes, kwargs)
-        cv.serialize(json_filename)
-        cv.close()
+        try:
+            cv.parse(page_indexes, kwargs)
+            cv.serialize(json_filename)
+        finally:
+            cv.close()
 
 
     @staticmethod
diff --git a/pdf2docx/main.py b/pdf2docx/main.py
index 8af82a0..c9c6225 100644
--- a/pdf2docx/main.py
+++ b/pdf2docx/main.py
@@ -29,8 +29,10 @@ class PDF2DOCX:
             if pages is not None: pages = [i-1 for i in pages]
 
         cv = Converter(pdf_file)
-        cv.convert(docx_file, start, end, pages, kwargs)
-        cv.close()
+        try:
+            cv.convert(docx_file, start, end, pages, kwargs)
+        finally:
+            cv.close()
     
 
     @staticmethod
@@ -50,8 +52,10 @@ class PDF2DOCX:
             page_index = max(page_index-1, 0)
 
         cv = Converter(pdf_file)
-        cv.debug_page(page_index, docx_file, debug_pdf, layout_file, kwargs)
-        cv.close()
+        try:
+            cv.debug_page(page_index, docx_file, debug_pdf, layout_file, kwargs)
+        finally:
+            cv.close()
 
 
     @staticmethod
@@ -71,8 +75,10 @@ class PDF2DOCX:
             if pages is not None: pages = [i-1 for i in pages]
 
         cv = Converter(pdf_file)
-        tables = cv.extract_tables(start, end, pages, kwargs)
-        cv.close()
+        try:
+            tables = cv.extract_tables(start, end, pages, kwargs)
+        finally:
+            cv.close()
 
         return tables
 
-- 
2.43.0


From 8c479b669ba8c9a4aaa312ca7edf942eb4979970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 08/22] fix: a page failed in parsing again isn't finalized any
 more

When the source can't be read in the second run, the page kept the finalized
state and layout of the first run, and went to the docx.
---
 pdf2docx/page/Page.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 22a7629..52e2fcb 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -142,6 +142,9 @@ class Page(RawPage):
 
     def parse(self, settings:dict=None):
         '''Parse page layout.'''
+        # not finalized until completed, even if ever parsed
+        self._finalized = False
+
         # update parameters
         self.settings = self.init_settings(settings)
 
-- 
2.43.0


From d99e4f35742e83696dfcf52e1f3819445b6f0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 09/22] fix: convert the selected pages only when reusing a
 converter

Pages selected in previous convert()/extract_tables() were included again.
---
 pdf2docx/converter.py | 6 ++++--
 pdf2docx/page/Page.py | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index c4d9b96..a72e043 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -228,8 +228,9 @@ class Converter:
         """ 
         kwargs = kwargs if kwargs else {}
         
-        # pages to convert
+        # pages to convert: don't count the pages parsed in previous runs
         page_indexes = self._page_indexes(start, end, pages, len(self))
+        for page in self._pages: page.reset()
         
         # convert page by page
         t0 = perf_counter()        
@@ -256,7 +257,8 @@ class Converter:
         kwargs = kwargs if kwargs else {}
         page_indexes = self._page_indexes(start, end, pages, len(self))
 
-        # process page by page
+        # process page by page: don't count the pages parsed in previous runs
+        for page in self._pages: page.reset()
         self.parse(page_indexes, kwargs)
 
         # get parsed tables
diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 52e2fcb..70a4e6d 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -55,6 +55,11 @@ class Page(RawPage):
     def finalized(self): return self._finalized
 
 
+    def reset(self):
+        '''Take this page as not parsed.'''
+        self._finalized = False
+
+
     @staticmethod
     def init_settings(settings:dict=None):
         '''Initialize and update parameters.'''
-- 
2.43.0


From f301db353d8a926bd7c95cbe7d0e40521835887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 10/22] fix: keep the type of stream table when restoring
 layout

---
 pdf2docx/page/Blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 45d7685..875226d 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -120,6 +120,7 @@ class Blocks(Collection):
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
                 block = TableBlock(raw_block)
+                if block_type==BlockType.STREAM_TABLE.value: block.set_stream_table_block()
             
             else:
                 block = None            
-- 
2.43.0


From 1fc95c39bf914f0246bf635a0c3adafb3fd3da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 11/22] fix: restore floating images to where they're created
 from

Restored floating images were missed in docx, e.g. with multi-processing; and
those identified in the first run were created twice when parsing again.
---
 pdf2docx/page/Blocks.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 875226d..f1b4c03 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -101,6 +101,7 @@ class Blocks(Collection):
             Blocks: self
         '''
         self.reset()  # clean current instances
+        self.floating_image_blocks = []
         for raw_block in raws:
             block_type = raw_block.get('type', -1) # type: int
             
@@ -116,6 +117,10 @@ class Blocks(Collection):
             elif block_type == BlockType.FLOAT_IMAGE.value:
                 block = ImageBlock(raw_block)
                 block.set_float_image_block()
+                
+                # it's stored separately from flow blocks
+                self.floating_image_blocks.append(block)
+                continue
 
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
-- 
2.43.0


From 9c7984f672a13b108c7bea909f200c584a3b693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 12/22] fix: clear the cached shape groups when restoring
 shapes

Hyperlinks of the first run were applied when parsing a page again.
---
 pdf2docx/shape/Shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/shape/Shapes.py b/pdf2docx/shape/Shapes.py
index fd5aefa..9f71022 100644
--- a/pdf2docx/shape/Shapes.py
+++ b/pdf2docx/shape/Shapes.py
@@ -28,6 +28,10 @@ class Shapes(Collection):
     def restore(self, raws:list):
         '''Clean current instances and restore them from source dicts.'''
         self.reset()
+
+        # clear shapes cached for previous instances
+        for name in ('strokes', 'fillings', 'hyperlinks'): self.__dict__.pop(name, None)
+
         # Distinguish specified type by key like `start`, `end` and `uri`.
         for raw in raws:
             if 'start' in raw:
-- 
2.43.0


From b242e19ab040b747cf8baf24e4011126a159fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 13/22] fix: remove characters not allowed in XML

A control character in text or font name aborted the rest of the page, and one
in a hyperlink address made saving the docx fail.
---
 pdf2docx/common/share.py  | 6 ++++++
 pdf2docx/shape/Shape.py   | 4 ++--
 pdf2docx/text/Char.py     | 3 ++-
 pdf2docx/text/TextSpan.py | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 37f17a4..b7000e1 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -2,6 +2,7 @@
 
 from enum import Enum
 import random
+import re
 from collections import deque
 from collections.abc import Iterable
 from fitz.utils import getColorList, getColorInfoList
@@ -111,6 +112,11 @@ def flatten(items, klass):
             yield item
 
 
+def xml_text(text:str):
+    '''Remove characters not allowed in XML, e.g. control characters, so that it can be written to docx.'''
+    return re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '', text)
+
+
 # -------------------------
 # color methods
 # -------------------------
diff --git a/pdf2docx/shape/Shape.py b/pdf2docx/shape/Shape.py
index 792884e..67d0ed2 100644
--- a/pdf2docx/shape/Shape.py
+++ b/pdf2docx/shape/Shape.py
@@ -47,7 +47,7 @@ Data structure::
 
 import fitz
 from ..common.Element import Element
-from ..common.share import RectType
+from ..common.share import RectType, xml_text
 from ..common import constants
 
 
@@ -311,7 +311,7 @@ class Hyperlink(Shape):
         super().__init__(raw)
 
         # set uri
-        self.uri = raw.get('uri', '')
+        self.uri = xml_text(raw.get('uri', ''))
         
 
     def store(self):
diff --git a/pdf2docx/text/Char.py b/pdf2docx/text/Char.py
index d895f33..f40b63a 100644
--- a/pdf2docx/text/Char.py
+++ b/pdf2docx/text/Char.py
@@ -13,6 +13,7 @@ Data structure refer to this `link <https://pymupdf.readthedocs.io/en/latest/tex
 
 
 from ..common.Element import Element
+from ..common.share import xml_text
 from ..shape.Shape import Shape
 
 
@@ -20,7 +21,7 @@ class Char(Element):
     '''Object representing a character.'''
     def __init__(self, raw:dict=None):
         if raw is None: raw = {}
-        self.c = raw.get('c', '')
+        self.c = xml_text(raw.get('c', ''))
         self.origin = raw.get('origin', None)
         super().__init__(raw) # NOTE: ignore parent element for Char instance
 
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ed821a3..0df4ff8 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -47,7 +47,7 @@ class TextSpan(Element):
     def __init__(self, raw:dict=None):
         if raw is None: raw = {}
         self.color = raw.get('color', 0)
-        self._font = raw.get('font', '')
+        self._font = share.xml_text(raw.get('font', ''))
         self.size = raw.get('size', 12.0)
         self.flags = raw.get('flags', 0)
         self.chars = [ Char(c) for c in raw.get('chars', []) ] # type: list[Char]
-- 
2.43.0


From 9e74723b338a353ac341db1df3ea7ae918d73a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 14/22] fix: text smaller than 0.25 pt doesn't abort the page

The font size was rounded to zero, which is the divisor of character scaling.
---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 0df4ff8..77110a3 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -411,7 +411,7 @@ class TextSpan(Element):
         # font size
         # NOTE: only x.0 and x.5 is accepted in docx, so set character scaling accordingly
         # if the font size doesn't meet this condition.
-        font_size = round(self.size*2)/2.0
+        font_size = max(round(self.size*2)/2.0, 0.5)
         docx_run.font.size = Pt(font_size)
 
         # adjust by set scaling
-- 
2.43.0


From 38df184978c3297df97fdbf79365d8f467cd099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 15/22] fix: don't rotate the parsed results once more when
 restoring them

The rotation of the last page parsed in this process was applied to the parsed
results, which are already in rotated page coordinate system.
---
 pdf2docx/converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index a72e043..df1ac5c 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -8,6 +8,7 @@ from multiprocessing import Pool, cpu_count
 import fitz
 from docx import Document
 from .page.Page import Page
+from .common.Element import Element
 
 
 class Converter:
@@ -133,6 +134,9 @@ class Converter:
 
     def restore(self, data:dict):
         '''Restore pages from parsed results.'''
+        # coordinates of parsed results are based on real page CS, so no further rotation required
+        Element.set_rotation_matrix(fitz.Matrix(0.0))
+
         for raw_page in data.get('pages', []):
             idx = raw_page.get('id', -1)
             self._pages[idx].restore(raw_page)
-- 
2.43.0


From 10ed21474c3eeb0bf02f7373af40ffea76990b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 16/22] fix: restore() doesn't change the passed-in data

---
 pdf2docx/text/Line.py      | 2 +-
 pdf2docx/text/TextBlock.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 825a2f9..4cfcaf5 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -45,7 +45,7 @@ class Line(Element):
         self._pid = None
         
         # remove key 'bbox' since it is calculated from contained spans
-        if 'bbox' in raw: raw.pop('bbox') 
+        raw = { k:v for k,v in raw.items() if k!='bbox' }
         super().__init__(raw)
 
         # collect spans
diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index e4dcfc4..f9d5a75 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -42,7 +42,7 @@ class TextBlock(Block):
         if raw is None: raw = {}
         
         # remove key 'bbox' since it is calculated from contained lines
-        if 'bbox' in raw: raw.pop('bbox') 
+        raw = { k:v for k,v in raw.items() if k!='bbox' }
         super().__init__(raw)
 
         # collect lines
-- 
2.43.0


From 1aa1d5bbb225b3d8ac9f17bb0d0b73491cc49336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 17/22] fix: track the original parent of lines with a unique
 ID

The memory address was used, which is reused after the parent is released. So,
lines from different blocks were occasionally taken as from a same one.
---
 pdf2docx/text/Lines.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 7c6df23..04dc64a 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -3,6 +3,7 @@
 '''A group of Line objects.
 '''
 
+from itertools import count
 from docx.shared import Pt
 from .Line import Line
 from ..image.ImageSpan import ImageSpan
@@ -15,6 +16,14 @@ from ..common import constants
 class Lines(Collection):
     '''Collection of text lines.'''
 
+    _ids = count() # source of unique ID
+
+
+    def __init__(self, instances:list=None, parent=None):
+        super().__init__(instances, parent)
+        self._id = next(Lines._ids)
+
+
     @property
     def unique_parent(self):
         '''Whether all contained lines have same parant.'''
@@ -34,7 +43,7 @@ class Lines(Collection):
 
         # update original parent id
         if not self._parent is None:
-            line.pid = id(self._parent)
+            line.pid = self._id
 
 
     def restore(self, raws:list):
-- 
2.43.0


From 77885af0323e6ef967b06460f72ea1f20a3fdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 18/22] fix: write superscript of text spans

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 77110a3..814c150 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -398,7 +398,7 @@ class TextSpan(Element):
         # bit 2: serifed (2^2)
         # bit 3: monospaced (2^3)
         # bit 4: bold (2^4)
-        docx_run.superscript = bool(self.flags & 2**0)
+        docx_run.font.superscript = bool(self.flags & 2**0)
         docx_run.italic = bool(self.flags & 2**1)
         docx_run.bold = bool(self.flags & 2**4)
 
-- 
2.43.0


From 033f75bf86a5eba9a53c508256392fe4374b2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 19/22] fix: images of a rotated page aren't rotated twice

---
 pdf2docx/image/ImagesExtractor.py | 6 ++++--
 pdf2docx/page/RawPage.py          | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 43012f3..26d4fef 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -62,7 +62,8 @@ class ImagesExtractor:
             if not pix.colorspace:
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
 
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # raw dict is relative to un-rotated page, but the bbox to displayed page
+            raw_dict = cls._to_raw_dict(pix, bbox * page.derotationMatrix)
             images.append(raw_dict)
         return images
     
@@ -95,7 +96,8 @@ class ImagesExtractor:
         for group in groups:
             bbox = group.bbox
             pix = page.getPixmap(clip=bbox, matrix=fitz.Matrix(clip_image_res_ratio, clip_image_res_ratio))
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # raw dict is relative to un-rotated page, but the contour to displayed page
+            raw_dict = cls._to_raw_dict(pix, bbox * page.derotationMatrix)
             images.append(raw_dict)
         
         return images
diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8fb5a86..bc6d135 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -21,6 +21,7 @@ In addition to the raw layout dict, rectangle shapes are also included.
 '''
 
 from collections import defaultdict
+import fitz
 from ..image.ImagesExtractor import ImagesExtractor
 from ..shape.Paths import Paths
 from ..common.Element import Element
@@ -137,7 +138,8 @@ class RawPage:
         # vector graphics (curved paths in general) to images
         if exist_svg:
             excluding_areas = iso_areas
-            excluding_areas.extend([block['bbox'] for block in raw['blocks'] if block['type']==1]) # normal images
+            excluding_areas.extend([fitz.Rect(block['bbox']) * self.fitz_page.rotationMatrix \
+                for block in raw['blocks'] if block['type']==1]) # normal images
             images = ImagesExtractor.extract_vector_graphics(
                 self.fitz_page, excluding_areas, self.settings['clip_image_res_ratio'])
             raw['blocks'].extend(images)
-- 
2.43.0


From eb352d415e91c8192025115066765eccb33cbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 20/22] fix: skip a floating image of an unsupported format
 like an inline one

---
 pdf2docx/common/docx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 97ab975..6379598 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -294,7 +294,11 @@ def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
     '''
     run = p.add_run()
     # parameters for picture, e.g. id, name
-    rId, image = run.part.get_or_add_image(image_path_or_stream)
+    try:
+        rId, image = run.part.get_or_add_image(image_path_or_stream)
+    except UnrecognizedImageError:
+        print('Unrecognized Image.')
+        return
     cx, cy = image.scaled_dimensions(Pt(width), None)
     shape_id, filename = run.part.next_id, image.filename
     anchor = _CT_Anchor.new_pic_anchor(shape_id, rId, filename, cx, cy, Pt(pos_x), Pt(pos_y))
-- 
2.43.0


From 37cb5424f0f41fabeffb57cd40a9644792e786bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 21/22] fix: keep the position of text next to a text format
 shape

A text span touching a shape that covers none of its characters got an
empty bbox, so it was lost when restoring the layout.
---
 pdf2docx/text/TextSpan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 814c150..da01cd6 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -236,6 +236,9 @@ class TextSpan(Element):
         f = lambda items: items[1].contained_in_rect(rect, horizontal)
         index_chars = list(filter(f, enumerate(self.chars)))
 
+        # no chars covered, then add this span as it is
+        if not index_chars: return [self]
+
         # then we get target chars in a sequence
         pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
         length = len(index_chars)
-- 
2.43.0


From b4eaeb051feb8aa0c2f0c5fa2ea3a637ab7a8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:35 +0000
Subject: [PATCH 22/22] fix: keep blanks between spans in the text of a line

---
 pdf2docx/text/Line.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 4cfcaf5..a75bd76 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -55,8 +55,9 @@ class Line(Element):
     @property
     def text(self):
         '''Joining span text.'''
-        spans_text = [span.text.strip() for span in self.spans] # strip span text
-        return ''.join(spans_text)
+        # strip the line but not each span, since blanks may separate words of adjacent spans
+        spans_text = [span.text for span in self.spans]
+        return ''.join(spans_text).strip()
 
 
     @property
-- 
2.43.0

