From 2cd5e96954abccb6e76707ddd937dc75bac40dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 01/72] fix: opendoc() opens bytes and flat XML files, and
 refuses other files

opendoc() handed everything but streams to FileManager, so bytes, flat XML
files and missing files ended in a KeyError of the file name extension.
---
 ezodf/document.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..ef1c947 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -37,9 +37,9 @@ def is_valid_stream(buffer):
 
 
 def opendoc(filename):
-    if is_stream(filename):
+    if is_stream(filename) or is_valid_stream(filename):
         fm = ByteStreamManager(filename)
-    elif filename is not None:
+    elif is_zipfile(filename):
         fm = FileManager(filename)
     else:
         try:
-- 
2.43.0


From 962e8ba03d915a5200dacd535fca3737a4d7aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 02/72] fix: detect the document type by file name extension

splitext() returns the extension with a leading dot, the keys of MIMETYPES
have none: the documented last resort never worked.
---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index ef1c947..b28c5e6 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -64,7 +64,7 @@ def __detect_mime_type(file_manager):
     else:
         # use file ext name
         ext = os.path.splitext(file_manager.zipname)[1]
-        mime_type = MIMETYPES[ext]
+        mime_type = MIMETYPES[ext.lstrip('.').lower()]
     return mime_type
 
 
-- 
2.43.0


From 2dc804903debef77c7f579ccc6b656d625cded61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 03/72] fix: FlatXMLDocument reports the doctype of the opened
 file

The doctype stayed 'odt' for every opened file, and an unexpected root
element raised AttributeError instead of the intended ValueError.
---
 ezodf/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index b28c5e6..e3b43e7 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -154,10 +154,11 @@ class FlatXMLDocument(_BaseDocument):
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
         else:
-            raise ValueError("Unexpected root tag: %s" % self.xmlnode.tag)
+            raise ValueError("Unexpected root tag: %s" % xmlnode.tag)
 
         if self.mimetype not in frozenset(MIMETYPES.values()):
             raise TypeError("Unsupported mimetype: %s" % self.mimetype)
+        self.doctype = FILE_EXT_FOR_MIMETYPE[self.mimetype]
 
         self._setup()
         self._create_shortcuts(self.body)
-- 
2.43.0


From 921ea8d9277b1a620a678c60db5ed6a326632b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 04/72] fix: FlatXMLDocument uses the meta section of the file

The meta data were kept in an additional <office:document-meta> element, the
<office:meta> section of the file was neither read nor updated, and missing
sections were appended behind <office:body>.
---
 ezodf/document.py | 31 ++++++++++++++++++++++++-------
 ezodf/meta.py     |  3 ++-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index e3b43e7..aac8a6d 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -141,6 +141,10 @@ class _BaseDocument(object):
 class FlatXMLDocument(_BaseDocument):
     """ OpenDocument contained in a single XML file. """
     TAG = CN('office:document')
+    SECTIONS = [CN('office:meta'), CN('office:settings'), CN('office:scripts'),
+                CN('office:font-face-decls'), CN('office:styles'),
+                CN('office:automatic-styles'), CN('office:master-styles'),
+                CN('office:body')]
 
     def __init__(self, filetype='odt', filename=None, xmlnode=None):
         super(FlatXMLDocument, self).__init__()
@@ -165,13 +169,26 @@ class FlatXMLDocument(_BaseDocument):
 
 
     def _setup(self):
-        self.meta = OfficeDocumentMeta(subelement(self.xmlnode, CN('office:document-meta')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
-        self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
+        has_meta = self.xmlnode.find(CN('office:meta')) is not None
+        self.meta = OfficeDocumentMeta(self.xmlnode)
+        if not has_meta: # the meta data section has to be the first one
+            self.xmlnode.insert(0, self.meta.meta)
+
+        position = 0
+        # create missing sections in the order required by the standard
+        for tag in self.SECTIONS:
+            section = self.xmlnode.find(tag)
+            if section is None:
+                section = etree.Element(tag)
+                self.xmlnode.insert(position, section)
+            position = self.xmlnode.index(section) + 1
+
+        self.settings = wrap(self.xmlnode.find(CN('office:settings')))
+        self.scripts = wrap(self.xmlnode.find(CN('office:scripts')))
+        self.fonts = wrap(self.xmlnode.find(CN('office:font-face-decls')))
+        self.styles = wrap(self.xmlnode.find(CN('office:styles')))
+        self.automatic_styles = wrap(self.xmlnode.find(CN('office:automatic-styles')))
+        self.master_styles = wrap(self.xmlnode.find(CN('office:master-styles')))
         self.body = self.get_application_body(self.application_body_tag)
 
     def get_application_body(self, bodytag):
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..c17922a 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -34,7 +34,8 @@ class OfficeDocumentMeta(XMLMixin):
     def __init__(self, xmlnode=None):
         if xmlnode is None:
             self.xmlnode = etree.Element(self.TAG, nsmap=META_NSMAP)
-        elif xmlnode.tag == self.TAG:
+        elif xmlnode.tag in (self.TAG, CN('office:document')):
+            # <office:document> is the root node of flat XML documents
             self.xmlnode = xmlnode
         else:
             raise ValueError("Unexpected root node: %s" % xmlnode.tag)
-- 
2.43.0


From 8bca4b74eead11d1feec41682d207098a3abacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 05/72] fix: inject_style() works for flat XML documents

FlatXMLDocument.styles is the <office:styles> container itself, the inherited
method raised AttributeError.
---
 ezodf/document.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index aac8a6d..7ad80ac 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -198,6 +198,10 @@ class FlatXMLDocument(_BaseDocument):
         application_body = subelement(office_body, bodytag)
         return wrap(application_body)
 
+    def inject_style(self, stylexmlstr, where="styles.xml"):
+        style = fake_element(stylexmlstr)
+        self.styles.xmlnode.append(style.xmlnode)
+
     def _saving_routine(self):
         if os.path.exists(self.docname) and self.backup:
             self._backupfile(self.docname)
-- 
2.43.0


From 4c1b78566e01f42a8800962efce99f2b92760043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 06/72] fix: a failed save does not make the document
 unsaveable

'mimetype' was removed from the directory while writing the package and was
lost if writing failed: every further save() or tobytes() raised KeyError.
---
 ezodf/filemanager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..d796a7e 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -139,17 +139,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype:
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
-- 
2.43.0


From f017f57abb423b9fc35bf91bcfb20c9b0bfcbdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 07/72] fix: a failed or interrupted save keeps the existing
 document

save() removed or renamed the existing file before the new one was in place,
so an error or a crash in between left no file under the document name (and
without backup no accessible file at all), and temporary files were left
behind. Replace the existing file as last step and clean up on errors.
---
 ezodf/compatibility.py | 11 +++++-
 ezodf/filemanager.py   | 80 +++++++++++++++++++++++-------------------
 2 files changed, 54 insertions(+), 37 deletions(-)

diff --git a/ezodf/compatibility.py b/ezodf/compatibility.py
index 4b408ab..8f57554 100644
--- a/ezodf/compatibility.py
+++ b/ezodf/compatibility.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import sys, zipfile
+import os, sys, zipfile
 
 PY3 = sys.version_info[0] > 2
 
@@ -82,3 +82,12 @@ else: # PY2
         return (isinstance(instance, InputType) or
                 isinstance(instance, OutputType) or
                 isinstance(instance, SlowStringIO))
+
+def replace_file(source, target):
+    """ Rename file 'source' to 'target', replaces an existing 'target'. """
+    if hasattr(os, 'replace'):
+        os.replace(source, target)
+    else:
+        if os.name == 'nt' and os.path.exists(target):
+            os.remove(target)
+        os.rename(source, target)
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index d796a7e..b51215d 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import os
+import shutil
 import zipfile
 import random
 from datetime import datetime
@@ -15,10 +16,42 @@ from datetime import datetime
 from .xmlns import etree, CN
 from .manifest import Manifest
 from .compatibility import tobytes, bytes2unicode, is_bytes, is_zipfile
-from .compatibility import is_stream, StringIO
+from .compatibility import is_stream, StringIO, replace_file
 
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
+def get_tmpfilename(basefile=None):
+    def randomname(count):
+        return ''.join(random.sample(FNCHARS, count))
+
+    folder = "" if basefile is None else os.path.dirname(basefile)
+    while True:
+        filename = os.path.abspath(os.path.join(folder, randomname(8)+'.tmp'))
+        if not os.path.exists(filename):
+            return filename
+
+def save_via_tempfile(filename, write, backup=True):
+    """ Create `filename` by calling `write(tmpfilename)`, an existing file is
+    replaced at last, when the new file is complete. If saving fails, the
+    existing file remains unchanged and no temporary files are left behind.
+    """
+    tmpfilename = get_tmpfilename(filename)
+    tmpbackup = None
+    try:
+        write(tmpfilename)
+        if backup and os.path.exists(filename):
+            # existing document becomes the backup file
+            tmpbackup = get_tmpfilename(filename)
+            shutil.copy2(filename, tmpbackup)
+            replace_file(tmpbackup, filename+'.bak')
+        # rename the new created document
+        replace_file(tmpfilename, filename)
+    except: # not only Exceptions, clean up in any case
+        for name in (tmpfilename, tmpbackup):
+            if name is not None and os.path.exists(name):
+                os.remove(name)
+        raise
+
 class FileObject(object):
     __slots__ = ['element', 'media_type', 'zipinfo']
 
@@ -58,14 +91,7 @@ class FileManager(object):
         return open(self.zipname, 'rb')
 
     def tmpfilename(self, basefile=None):
-        def randomname(count):
-            return ''.join(random.sample(FNCHARS, count))
-
-        folder = "" if basefile is None else os.path.dirname(basefile)
-        while True:
-            filename = os.path.abspath(os.path.join(folder, randomname(8)+'.tmp'))
-            if not os.path.exists(filename):
-                return filename
+        return get_tmpfilename(basefile)
 
     def register(self, name, element, media_type=""):
         self.directory[name] = FileObject(name, element, media_type)
@@ -77,37 +103,19 @@ class FileManager(object):
 
     def save(self, filename, backup=True):
         # always create a new zipfile
-        write_to_memory = False
         if is_stream(filename):
-            write_to_memory = True
-        if write_to_memory:
-            tmpfilename = filename
-        else:
-            tmpfilename = self.tmpfilename(filename)
-        zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
-        self._tozip(zippo)
-        zippo.close()
-
-        if write_to_memory:
-            # job done
+            self._write_zip(filename)
             return
-
-        if os.path.exists(filename):
-            if backup:
-                # existing document becomes the backup file
-                bakfilename = filename+'.bak'
-                # remove existing backupfile
-                if os.path.exists(bakfilename):
-                    os.remove(bakfilename)
-                os.rename(filename, bakfilename)
-            else:
-                # just remove the existing document
-                os.remove(filename)
-
-        # rename the new created document
-        os.rename(tmpfilename, filename)
+        save_via_tempfile(filename, self._write_zip, backup)
         self.zipname = filename
 
+    def _write_zip(self, target):
+        zippo = zipfile.ZipFile(target, 'w', zipfile.ZIP_DEFLATED)
+        try:
+            self._tozip(zippo)
+        finally:
+            zippo.close()
+
     def get_bytes(self, filename):
         """ Returns a byte stream or None. """
         filecontent = None
-- 
2.43.0


From ab07c5d40200d9737eb1d29f2787d49f35b1d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 08/72] fix: saving a document opened from a stream does not
 truncate the target first

The target was opened for writing before the package was serialised, an error
while serialising or writing destroyed an existing document.
---
 ezodf/bytestreammanager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..6244cb7 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -9,7 +9,7 @@ __author__ = "mozman <mozman@gmx.at>"
 
 
 from .compatibility import is_stream, StringIO
-from .filemanager import FileManager
+from .filemanager import FileManager, save_via_tempfile
 
 
 class ByteStreamManager(FileManager):
@@ -24,8 +24,7 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
-            with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+            save_via_tempfile(filename, self._write_zip, backup=False)
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
-- 
2.43.0


From 2f5572413eaf9f857a42766e26cc10487c3a4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 09/72] fix: a failed save of a flat XML document keeps the
 existing file

The existing file was moved away or truncated before the new one was written.
---
 ezodf/document.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 7ad80ac..86b7020 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -11,7 +11,7 @@ import os
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
 from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
-from .filemanager import FileManager
+from .filemanager import FileManager, save_via_tempfile
 from .bytestreammanager import ByteStreamManager
 from .meta import OfficeDocumentMeta
 from .styles import OfficeDocumentStyles
@@ -203,16 +203,7 @@ class FlatXMLDocument(_BaseDocument):
         self.styles.xmlnode.append(style.xmlnode)
 
     def _saving_routine(self):
-        if os.path.exists(self.docname) and self.backup:
-            self._backupfile(self.docname)
-        self._writefile(self.docname)
-
-    def _backupfile(self, filename):
-        bakfilename = filename+'.bak'
-        # remove existing backupfile
-        if os.path.exists(bakfilename):
-            os.remove(bakfilename)
-        os.rename(filename, bakfilename)
+        save_via_tempfile(self.docname, self._writefile, self.backup)
 
     def _writefile(self, filename):
         with open(filename, 'wb') as fp:
-- 
2.43.0


From f3a2420570c480ebd82eb05d4c0b61bfdf34eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 10/72] fix: refuse to save if the source package is not
 accessible anymore

Pictures, settings and all other unmanaged files of the package were silently
dropped if the opened file was removed, renamed or (by a relative file name
and a changed working directory) not found at saving.
---
 ezodf/filemanager.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index b51215d..e02b58b 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -79,6 +79,8 @@ class FileManager(object):
     def __init__(self, zipname=None):
         self.directory = dict()
         self.zipname = zipname
+        # files of the source package, not managed ones are copied at saving
+        self.sourcenames = self._get_sourcenames()
         self.manifest = Manifest(self.get_bytes('META-INF/manifest.xml'))
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
@@ -90,6 +92,18 @@ class FileManager(object):
     def _open_bytestream(self):
         return open(self.zipname, 'rb')
 
+    def _get_sourcenames(self):
+        if not self.has_zip():
+            return frozenset()
+        bytestream = self._open_bytestream()
+        try:
+            zipfile_ = zipfile.ZipFile(bytestream, 'r')
+            names = frozenset(zipfile_.namelist())
+            zipfile_.close()
+        finally:
+            bytestream.close()
+        return names
+
     def tmpfilename(self, basefile=None):
         return get_tmpfilename(basefile)
 
@@ -164,11 +178,10 @@ class FileManager(object):
         """ Copy all files like pictures and settings except the files in 'ignore'.
         """
         if not self.has_zip():
+            if not self.sourcenames.issubset(ignore):
+                raise IOError("Source package is not accessible anymore: %s" % self.zipname)
             return # nothing to copy
-        try:
-            bytestream = self._open_bytestream()
-        except IOError:
-            return # nothing to copy
+        bytestream = self._open_bytestream()
 
         origzip = zipfile.ZipFile(bytestream)
         try:
-- 
2.43.0


From 9b3d5699050e95d0ece93f1ac242000d147a70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 11/72] fix: positions of sheets and pages are counted among
 sheets and pages

Sheets/Pages.index() and insert() used positions in the document body, so
declarations in front of the first sheet shifted them, and append() placed
new sheets behind named ranges etc.
---
 ezodf/pagecontainer.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..0625464 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -8,8 +8,14 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr, is_string
+from .xmlns import CN
+from .nodestructuretags import TABLE_FUNCTIONS
+from .nodeorganizer import EpilogueTagBlock
 from . import wrapcache
 
+# elements which has to be located behind the sheets/pages
+EPILOGUE = [CN('presentation:settings')] + TABLE_FUNCTIONS
+
 class AbstractPageContainer(object):
     def __init__(self, xmlbody, childtag, nametag):
         self._childtag = childtag
@@ -75,17 +81,32 @@ class AbstractPageContainer(object):
 
     def append(self, child):
         if self._is_valid_child(child):
-            self.xmlnode.append(child.xmlnode)
+            self.xmlnode.insert(self._append_position(), child.xmlnode)
             return child
         else:
             raise TypeError('Unable to append: %s' % tostr(child))
 
+    def _append_position(self):
+        children = self._xmlchildren()
+        if len(children):
+            return self.xmlnode.index(children[-1]) + 1
+        else:
+            return EpilogueTagBlock(self.xmlnode, EPILOGUE).insert_position_before()
+
     def names(self):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        if not self._is_valid_child(child):
+            raise TypeError('Unable to insert: %s' % tostr(child))
+        # position has to be counted among the sheets/pages only
+        successors = self._xmlchildren()[int(index):]
+        if len(successors):
+            position = self.xmlnode.index(successors[0])
+        else:
+            position = self._append_position()
+        self.xmlnode.insert(position, child.xmlnode)
         return child
-- 
2.43.0


From b57a4904c7847f17f02c29b1b6fa9c7f906e50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 12/72] fix: missing declarations are created in front of the
 body content

The declarations were appended behind the epilogue of opened documents, so
that appended text was placed behind the epilogue too.
---
 ezodf/body.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ezodf/body.py b/ezodf/body.py
index 580ed1d..d176838 100644
--- a/ezodf/body.py
+++ b/ezodf/body.py
@@ -7,21 +7,37 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN, wrap, subelement
+from .xmlns import register_class, CN, wrap, etree
 from .base import GenericWrapper
 from .sheets import Sheets
 from .pages import Pages
 from .nodeorganizer import EpilogueTagBlock
-from .nodestructuretags import TEXT_EPILOGUE
+from .nodestructuretags import TEXT_EPILOGUE, TEXT_DECL
+from .nodestructuretags import OFFICE_FORMS, TABLE_TRACKED_CHANGES
+
+# elements located in front of the text declarations
+DECL_PREDECESSORS = (OFFICE_FORMS + TABLE_TRACKED_CHANGES +
+                     [CN('text:tracked-changes')])
 
 
 class GenericBody(GenericWrapper):
     def __init__(self, xmlnode=None):
         super(GenericBody, self).__init__(xmlnode=xmlnode)
-        self.variables = wrap(subelement(self.xmlnode,
-                                                CN("text:variable-decls")))
-        self.userfields = wrap(subelement(self.xmlnode,
-                                                CN("text:user-field-decls")))
+        self.variables = wrap(self._declarations(CN("text:variable-decls")))
+        self.userfields = wrap(self._declarations(CN("text:user-field-decls")))
+
+    def _declarations(self, tag):
+        """ Find/create declarations element in front of the content. """
+        element = self.xmlnode.find(tag)
+        if element is None:
+            predecessors = DECL_PREDECESSORS + TEXT_DECL[:TEXT_DECL.index(tag)]
+            position = 0
+            for index, child in enumerate(self.xmlnode):
+                if child.tag in predecessors:
+                    position = index + 1
+            element = etree.Element(tag)
+            self.xmlnode.insert(position, element)
+        return element
 
 
 @register_class
-- 
2.43.0


From 7c73d3d3538e1cf89bc7c18a7c52b9858a7e1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 13/72] fix: get_cell_index() raises TypeError for invalid
 references

---
 ezodf/tableutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..0bb88bc 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -53,7 +53,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From c79976948c1fd3ce888dfd7ca65930d55bfcf046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 14/72] fix: cell spans never overlap, span (1, 1) is possible

Covered cells could become part of another span, a span of (1, 1) raised a
KeyError, and invalid arguments raised a NameError.
---
 ezodf/cells.py              | 5 +++--
 ezodf/cellspancontroller.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..99a94f5 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -208,8 +208,9 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        for key in (CN('table:number-rows-spanned'), CN('table:number-columns-spanned')):
+            if key in self.xmlnode.attrib:
+                del self.xmlnode.attrib[key]
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..12277ea 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
@@ -45,7 +46,7 @@ class CellSpanController(object):
 
     def _has_cell_range_spanned_cells(self, pos, size):
         for cell_index in iter_cell_range(pos, size):
-            if self.is_cell_spanning(cell_index):
+            if self.is_cell_spanning(cell_index) or self._get_cell(cell_index).covered:
                 return True
         return False
 
-- 
2.43.0


From a311e9d3eac6a32617ae63e88d0deadd4b3dbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 15/72] fix: invalid cell references do not reach other cells

Row 0 in a cell address and negative indices below the first row or column
addressed cells counted from the end of the table.
---
 ezodf/tablerowcontroller.py |  3 +++
 ezodf/tableutils.py         | 11 ++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..b18f0a7 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
@@ -49,6 +50,8 @@ class TableCellAccessor(object):
             row += self.nrows()
         if col < 0:
             col += self.ncols()
+        if row < 0 or col < 0:
+            raise IndexError('cell index out of range: %s' % tostr(pos))
         return (row, col)
 
     def row(self, index):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 0bb88bc..9f03d21 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -28,7 +28,7 @@ def iter_cell_range_without_start_pos(pos, size):
     next(generator)
     return generator
 
-CELL_ADDRESS = re.compile('^([A-Z]+)(\d+)$')
+CELL_ADDRESS = re.compile('^([A-Za-z]+)([0-9]+)\\Z')
 
 def address_to_index(address):
     def column_name_to_index(colname):
@@ -40,12 +40,13 @@ def address_to_index(address):
             power *= 26
         return index - 1
 
-    res = CELL_ADDRESS.match(address.upper())
+    res = CELL_ADDRESS.match(address)
     if res:
         column_name, row_name = res.groups()
-        return (int(row_name)-1, column_name_to_index(column_name))
-    else:
-        raise ValueError('Invalid cell address: %s' % address)
+        row = int(row_name) - 1
+        if row >= 0: # first row is 1
+            return (row, column_name_to_index(column_name.upper()))
+    raise ValueError('Invalid cell address: %s' % address)
 
 def get_cell_index(reference):
     if isinstance(reference, tuple): # key => (row, column)
-- 
2.43.0


From 8c006b46d94fa428c776ef3d9a06e179dc16a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 16/72] fix: rows and columns of sub tables do not belong to
 the outer table

Cells can contain tables, their rows and columns were treated as rows and
columns of the outer table.
---
 ezodf/tablecolumncontroller.py |  8 ++++----
 ezodf/tableutils.py            | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..7c5caa6 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, RepetitionAttribute
+from .tableutils import is_table, get_table_columns, RepetitionAttribute
 from .conf import config
 
 def new_empty_column():
@@ -73,7 +73,7 @@ class TableColumnController(object):
         self.update()
 
     def update(self):
-        self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
+        self._columns = get_table_columns(self.xmlnode)
 
     def reset(self, ncols):
         if ncols < 1:
@@ -96,7 +96,7 @@ class TableColumnController(object):
             strategy = expand_strategies[expand]
         except KeyError:
             raise TypeError("Unknown expand strategy: %s" % expand)
-        strategy.expand_columns(self.xmlnode.findall('.//'+CN('table:table-column')), maxcols)
+        strategy.expand_columns(get_table_columns(self.xmlnode), maxcols)
 
     def __len__(self):
         return len(self._columns)
@@ -120,7 +120,7 @@ class TableColumnController(object):
 
     def is_consistent(self):
         # just for testing
-        xmlcols = self.xmlnode.findall('.//'+CN('table:table-column'))
+        xmlcols = get_table_columns(self.xmlnode)
         if len(xmlcols) != len(self):
             return False
         for col1, col2 in zip(self._columns, xmlcols):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 9f03d21..a9719d2 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -10,6 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 import re
 from .compatibility import tostr, is_string
 from .xmlns import CN, etree
+from .nodestructuretags import TABLE_ROWS, TABLE_COLUMNS
 
 def iter_cell_range(pos, size):
     start_row, start_column = pos
@@ -63,8 +64,21 @@ def get_min_max_cell_count(xmltable):
     else:
         return (0, 0)
 
+def _find_in_groups(xmlnode, tag, groups):
+    # do not search in table cells, they can contain sub tables
+    result = []
+    for child in xmlnode:
+        if child.tag == tag:
+            result.append(child)
+        elif child.tag in groups:
+            result.extend(_find_in_groups(child, tag, groups))
+    return result
+
 def get_table_rows(xmltable):
-    return xmltable.findall('.//'+CN('table:table-row'))
+    return _find_in_groups(xmltable, CN('table:table-row'), TABLE_ROWS)
+
+def get_table_columns(xmltable):
+    return _find_in_groups(xmltable, CN('table:table-column'), TABLE_COLUMNS)
 
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
-- 
2.43.0


From 28fa768792fbd0766ee13a1ecd8a467cd84c977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 17/72] fix: refused row and column operations leave the table
 unchanged

Index and count were not checked before the first change, a table with an
invalid range to insert or delete became ragged; reset() with an invalid
size emptied the table.
---
 ezodf/table.py                 | 10 ++++++++--
 ezodf/tablecolumncontroller.py |  7 +++----
 ezodf/tablerowcontroller.py    | 19 +++++--------------
 ezodf/tableutils.py            | 21 +++++++++++++++++++++
 4 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..0ca80cf 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -17,6 +17,7 @@ from .protection import random_protection_key
 from .propertymixins import TableVisibilityMixin
 from .propertymixins import StringProperty, BooleanProperty
 from .tableutils import address_to_index, get_cell_index
+from .tableutils import check_index_range, check_table_size
 from .tablerowcontroller import TableRowController
 from .tablecolumncontroller import TableColumnController
 from .cellspancontroller import CellSpanController
@@ -87,10 +88,12 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
+        size = check_table_size(size)
         preserve_name = self.name
         super(Table, self).clear()
 
-        self.name = preserve_name
+        if preserve_name is not None: # sub tables can be nameless
+            self.name = preserve_name
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
@@ -101,7 +104,7 @@ class Table(GenericWrapper):
     def copy(self, newname=None):
         newtable = Table(xmlnode=copy.deepcopy(self.xmlnode))
         if newname is None:
-            newname = 'CopyOf' + self.name
+            newname = 'CopyOf' + (self.name or '')
         newtable.name = newname
         return newtable
 
@@ -166,11 +169,14 @@ class Table(GenericWrapper):
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        index = check_index_range(index, 1, self.ncols())
         self._cellmatrix.insert_columns(index, count)
         self._columns_info.insert(index, count)
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        if index < 0: # refers to the columns of the table
+            index += self.ncols()
         self._cellmatrix.delete_columns(index, count)
         self._columns_info.delete(index, count)
 
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 7c5caa6..3ec71d4 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -13,6 +13,7 @@ from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
 from .tableutils import is_table, get_table_columns, RepetitionAttribute
+from .tableutils import check_index_range
 from .conf import config
 
 def new_empty_column():
@@ -139,8 +140,7 @@ class TableColumnController(object):
     def insert(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
-        if index < 0:
-            index += len(self)
+        index = check_index_range(index, 1, len(self))
         for _ in range(count):
             column = new_empty_column()
             insertpos = self._columns[index]
@@ -150,8 +150,7 @@ class TableColumnController(object):
     def delete(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
-        if index < 0:
-            index += len(self)
+        index = check_index_range(index, count, len(self))
         for _ in range(count):
             column = self._columns[index]
             column.getparent().remove(column)
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index b18f0a7..f80b6cc 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -12,6 +12,7 @@ from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
 from .tableutils import get_table_rows, new_empty_cell, is_table
+from .tableutils import check_index_range, check_table_size
 from .conf import config
 
 class TableCellAccessor(object):
@@ -68,15 +69,8 @@ class TableRowController(TableCellAccessor):
         super(TableRowController, self).__init__(xmlnode)
 
     def reset(self, size):
-        def validate_parameter(nrows, ncols):
-            if nrows < 1:
-                raise ValueError('nrows has to be >= 1.')
-            if ncols < 1:
-                raise ValueError('ncols has to be >= 1.')
-
+        nrows, ncols = check_table_size(size)
         self._remove_existing_rows()
-        nrows, ncols = size
-        validate_parameter(nrows, ncols)
         self.xmlnode.extend( (self._build_new_row(ncols) for _ in range(nrows)) )
         self.update()
 
@@ -122,8 +116,7 @@ class TableRowController(TableCellAccessor):
     def delete_rows(self, index, count=1):
         if count < 1 or count >= self.nrows():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.nrows()
+        index = check_index_range(index, count, self.nrows())
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -139,8 +132,7 @@ class TableRowController(TableCellAccessor):
     def insert_columns(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
-        if index < 0:
-            index += self.ncols()
+        index = check_index_range(index, 1, self.ncols())
 
         for row in self._rows:
             for _ in range(count):
@@ -149,8 +141,7 @@ class TableRowController(TableCellAccessor):
     def delete_columns(self, index, count=1):
         if count < 1 or count >= self.ncols():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.ncols()
+        index = check_index_range(index, count, self.ncols())
 
         for row in self._rows:
             for _ in range(count):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index a9719d2..fa4af8d 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import operator
 import re
 from .compatibility import tostr, is_string
 from .xmlns import CN, etree
@@ -83,6 +84,26 @@ def get_table_columns(xmltable):
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
 
+def check_table_size(size):
+    """ Returns `size` as tuple (nrows, ncols), raises ValueError/TypeError for
+    invalid sizes.
+    """
+    nrows, ncols = [operator.index(value) for value in size]
+    if nrows < 1:
+        raise ValueError('nrows has to be >= 1.')
+    if ncols < 1:
+        raise ValueError('ncols has to be >= 1.')
+    return nrows, ncols
+
+def check_index_range(index, count, limit):
+    """ Returns not negative start index, raises IndexError if the range
+    [index, index+count[ exceeds the limits.
+    """
+    start = index + limit if index < 0 else index
+    if start < 0 or start + count > limit:
+        raise IndexError('index out of range: %s' % tostr(index))
+    return start
+
 def new_empty_cell():
     return etree.Element(CN('table:table-cell'))
 
-- 
2.43.0


From 25ad9fb4e1ac519ef528a18d19dd0e46e702d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 18/72] fix: column declarations agree with the columns of the
 table

Tables with fewer or no column declarations than columns lost track of the
column infos if columns were appended, inserted or deleted.
---
 ezodf/table.py                 | 10 +++++++++-
 ezodf/tablecolumncontroller.py | 12 ++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 0ca80cf..b128112 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -43,6 +43,8 @@ class Table(GenericWrapper):
         init_attributes_by_xmlnode()
         if xmlnode is None:
             set_new_table_metrics()
+        else:
+            self._columns_info.align(self.ncols())
         wrapcache.add(self)
 
     def __getitem__(self, key):
@@ -150,6 +152,8 @@ class Table(GenericWrapper):
     def column_info(self, index):
         if is_string(index):
             row, index = address_to_index(index)
+        elif index < 0: # refers to the columns of the table
+            index = check_index_range(index, 1, self.ncols())
         return wrap(self._columns_info.get_table_column(index))
 
     def append_rows(self, count=1):
@@ -164,8 +168,12 @@ class Table(GenericWrapper):
         self._cellmatrix.delete_rows(index, count)
 
     def append_columns(self, count=1):
+        ncols = self.ncols()
         self._cellmatrix.append_columns(count)
-        self._columns_info.append(count)
+        if len(self._columns_info) > ncols: # more declarations than columns
+            self._columns_info.insert(ncols, count)
+        else:
+            self._columns_info.append(count)
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 3ec71d4..72fa6e2 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -80,6 +80,18 @@ class TableColumnController(object):
         if ncols < 1:
             raise ValueError('ncols has to be >= 1.')
         self._remove_existing_columns()
+        self._insert_first_columns(ncols)
+
+    def align(self, ncols):
+        """ Create missing column declarations for a table of `ncols` columns. """
+        missing = ncols - len(self)
+        if missing > 0:
+            if len(self):
+                self.append(missing)
+            else:
+                self._insert_first_columns(missing)
+
+    def _insert_first_columns(self, ncols):
         insert_position = PreludeTagBlock(self.xmlnode, TABLE_PRELUDE).insert_position_after()
         for _ in range(ncols):
             self.xmlnode.insert(insert_position, new_empty_column())
-- 
2.43.0


From b6780ab4acb4c95be7470f0f409b97c81a454bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 19/72] fix: assigning a cell of a table does not remove it
 from its row

The cell element was moved out of its row, which left a ragged table.
---
 ezodf/tablerowcontroller.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index f80b6cc..063acd0 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import copy
+
 from .compatibility import tostr
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
@@ -43,7 +45,13 @@ class TableCellAccessor(object):
 
     def set_cell(self, pos, element):
         row, col = self._adjust_negative_indices(pos)
-        self._rows[row][col] = element
+        xmlrow = self._rows[row]
+        if xmlrow[col] is element:
+            return
+        if element.getparent() is not None:
+            # cell is located in a table, do not remove it from there
+            element = copy.deepcopy(element)
+        xmlrow[col] = element
 
     def _adjust_negative_indices(self, pos):
         row, col = pos
-- 
2.43.0


From f36e051e4eb490bf37d3c0fab7ca3d9102a76426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 20/72] fix: no value attributes are left over from previous
 cell values

currency remained set if a currency cell got a value of another type.
---
 ezodf/cells.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 99a94f5..27c930b 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -27,6 +27,8 @@ TYPE_VALUE_MAP = {
     'boolean': CN('office:boolean-value'),
 }
 
+VALUE_ATTRIBUTES = frozenset(TYPE_VALUE_MAP.values()) | frozenset([CN('office:currency')])
+
 # These Classes are supported to read their plaintext content from the
 # cell-content.
 SUPPORTED_CELL_CONTENT = ("Paragraph", "Heading")
@@ -140,7 +142,7 @@ class Cell(GenericWrapper):
         self.set_attr(CN('office:value-type'), value_type)
 
     def _clear_old_value(self):
-        self._clear_value_attribute(self.value_type)
+        self._clear_value_attributes()
         self._clear_content()
 
     def _clear_content(self):
@@ -148,12 +150,10 @@ class Cell(GenericWrapper):
         for _ in range(len(xmlnode)):
             del xmlnode[0]
 
-    def _clear_value_attribute(self, value_type):
-        try:
-            attribute_name = TYPE_VALUE_MAP[value_type]
-            del self.xmlnode.attrib[attribute_name]
-        except KeyError:
-            pass
+    def _clear_value_attributes(self):
+        for name in VALUE_ATTRIBUTES:
+            if name in self.xmlnode.attrib:
+                del self.xmlnode.attrib[name]
 
     @property
     def display_form(self):
-- 
2.43.0


From 993ecc53c564733cec5ff9566d1c3048e39e69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 21/72] fix: a refused cell value leaves the cell unchanged

Empty or illegal values for attributes were refused after the old value was
removed.
---
 ezodf/cells.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 27c930b..51355b1 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -123,7 +123,16 @@ class Cell(GenericWrapper):
         if not is_valid_type(value_type):
             raise TypeError(value_type)
 
+        def check_attributes(value, currency):
+            # raises ValueError for invalid attribute values
+            probe = GenericWrapper()
+            if not isinstance(value, GenericWrapper):
+                probe.set_attr(TYPE_VALUE_MAP[value_type], value)
+            if currency:
+                probe.set_attr(CN('office:currency'), currency)
+
         value = convert(value, value_type)
+        check_attributes(value, currency)
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
-- 
2.43.0


From f8d0ee40ffa56dc293f218e69e526195d23e0ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 22/72] fix: Spaces.count can be reset to 1

---
 ezodf/whitespaces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..2efcea4 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -46,8 +46,11 @@ class Spaces(Tabulator):
         return int(count) if count is not None else 1
     @count.setter
     def count(self, value):
-        if int(value) > 1:
+        value = int(value)
+        if value > 1:
             self.set_attr(CN('text:c'), tostr(value))
+        elif CN('text:c') in self.xmlnode.attrib:
+            del self.xmlnode.attrib[CN('text:c')]
 
     @property
     def textlen(self):
-- 
2.43.0


From 1faa0ce8181239fa24c0ae724a6aec42bffbff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 23/72] fix: encoding of white spaces is thread safe

A shared encoder object mixed up texts of different threads.
---
 ezodf/whitespaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 2efcea4..2f8af6f 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -143,7 +143,8 @@ class _WhitespaceEncoder(object):
 WhitespaceEncoder = _WhitespaceEncoder()
 
 def encode_whitespaces(plaintext):
-    return WhitespaceEncoder.encode(plaintext)
+    # encoder has a state, a shared encoder would not be thread safe
+    return _WhitespaceEncoder().encode(plaintext)
 
 def decode_whitespaces(taglist):
     return WhitespaceEncoder.decode(taglist)
-- 
2.43.0


From 34da923099ae48fafaf014a24e8d42329ea89e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 24/72] fix: spaces of successively appended texts do not
 collapse

A text starting with a space appended to a text ending with a space created
a sequence of raw spaces, which is one space for ODF consumers.
---
 ezodf/text.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ezodf/text.py b/ezodf/text.py
index dc68edc..eb7a4d5 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -10,7 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 from.compatibility import is_string
 from .xmlns import CN, register_class, subelement, wrap
 from .base import GenericWrapper, safelen
-from .whitespaces import encode_whitespaces
+from .whitespaces import encode_whitespaces, Spaces
 from .protection import random_protection_key
 from .propertymixins import StringProperty, TextNumberingMixin, BooleanProperty
 from .propertymixins import IntegerWithLowerLimitProperty
@@ -51,7 +51,19 @@ class Span(GenericWrapper):
         def append(text, new):
             return text + new if text else new
 
-        for tag in encode_whitespaces(text):
+        def ends_with_space():
+            if len(self.xmlnode) > 0:
+                last_text = self.xmlnode[-1].tail
+            else:
+                last_text = self.xmlnode.text
+            return bool(last_text) and last_text.endswith(' ')
+
+        tags = encode_whitespaces(text)
+        if len(tags) and is_string(tags[0]) and tags[0].startswith(' ') and ends_with_space():
+            # a sequence of spaces in the XML text collapses to one space
+            tags[:1] = [Spaces(1), tags[0][1:]]
+
+        for tag in tags:
             if is_string(tag):
                 if len(self.xmlnode) > 0:
                     lastchild = self[-1]
-- 
2.43.0


From a7ce064cbcb84fc3c5561e6f07b53729d9daa878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 25/72] fix: variables and user fields hold the assigned value
 everywhere

- user fields never updated their occurrences but those of the simple
  variable of the same name
- boolean values were read back as False from occurrences
- 0, False and '' were refused by user fields
- value attributes of previous values were left over
- names containing quotes and declared but unused variables raised errors
---
 ezodf/variables.py | 172 ++++++++++++++++++++++++++-------------------
 1 file changed, 100 insertions(+), 72 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..5d9eb1a 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -11,6 +11,62 @@ from .xmlns import register_class, CN, wrap
 from .base import GenericWrapper
 from .compatibility import itermap, tostr
 
+NUMERIC_TYPES = frozenset(('float', 'percentage', 'currency'))
+
+VALUE_ATTRIBUTES = {
+    'float': CN('office:value'),
+    'percentage': CN('office:value'),
+    'currency': CN('office:value'),
+    'boolean': CN('office:boolean-value'),
+    'string': CN('office:string-value'),
+    'date': CN('office:date-value'),
+    'time': CN('office:time-value'),
+}
+
+def value_type_of(value):
+    vtype = type(value)
+    if vtype == bool:
+        return 'boolean'
+    elif vtype == int or vtype == float:
+        return 'float'
+    else:
+        return 'string'
+
+def value_to_string(value):
+    if type(value) == bool:
+        return 'true' if value else 'false'
+    else:
+        return tostr(value)
+
+def string_to_value(string, value_type):
+    if string is None:
+        return None
+    elif value_type == 'boolean':
+        return string.lower() == 'true'
+    elif value_type in NUMERIC_TYPES:
+        return float(string)
+    else:
+        return string
+
+# elements which have a value attribute, the others just show the value as text
+VALUE_ELEMENTS = (CN('text:user-field-decl'), CN('text:variable-set'))
+
+def set_value_attribute(xmlnode, value_type, string):
+    """ Set value attribute and remove attributes of other value types. """
+    attribute = None
+    if xmlnode.tag in VALUE_ELEMENTS:
+        attribute = VALUE_ATTRIBUTES[value_type]
+        xmlnode.set(attribute, string)
+    for name in VALUE_ATTRIBUTES.values():
+        if name != attribute and name in xmlnode.attrib:
+            del xmlnode.attrib[name]
+
+def get_value_attribute(xmlnode, value_type):
+    try:
+        return xmlnode.get(VALUE_ATTRIBUTES[value_type])
+    except KeyError: # unknown value type
+        return None
+
 
 class Variables(GenericWrapper):  # {{{1
 
@@ -50,6 +106,7 @@ class UserFields(Variables):  # {{{1
 
 
 class Variable(GenericWrapper):  # {{{1
+    INSTANCE_TAGS = ()
 
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
@@ -58,19 +115,12 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
-                                                       CN('text:name'),
-                                                       self.name))
-        return itermap(wrap, vs + vg + vi)
+        xmlroot = self.get_xmlroot()
+        xmlnodes = []
+        for tag in self.INSTANCE_TAGS:
+            xmlnodes.extend(xmlnode for xmlnode in xmlroot.iter(tag)
+                            if xmlnode.get(CN('text:name')) == self.name)
+        return itermap(wrap, xmlnodes)
 
     @property
     def type(self):  # {{{2
@@ -89,6 +139,8 @@ class Variable(GenericWrapper):  # {{{1
 @register_class
 class SimpleVariable(Variable):  # {{{1
     TAG = CN('text:variable-decl')
+    INSTANCE_TAGS = (CN('text:variable-set'), CN('text:variable-get'),
+                     CN('text:variable-input'))
 
     @property
     def value(self):  # {{{2
@@ -96,29 +148,25 @@ class SimpleVariable(Variable):  # {{{1
         Get variable value
         FIXME: (it's assumed that all instances have the same value)
         """
-        return list(self.instances)[0].value
+        for instance in self.instances:
+            return instance.value
+        return None # variable is declared but not used
 
     @value.setter
     def value(self, v):  # {{{2
         """
         Set variable value
         """
-        vtype = type(v)
-
         for instance in self.instances:
             instance.value = v
-
-        if vtype == bool:
-            self.type = 'boolean'
-        elif vtype == int or vtype == float:
-            self.type = 'float'
-        else:
-            self.type = 'string'
+        self.type = value_type_of(v)
 
 
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE_TAGS = (CN('text:user-field-set'), CN('text:user-field-get'),
+                     CN('text:user-field-input'))
 
     @property
     def value(self):  # {{{2
@@ -127,31 +175,19 @@ class UserField(Variable):  # {{{1
         FIXME: (it's assumed that all instances have the same value)
         """
 
-        if self.type == 'boolean':
-            return self.get_bool_attr(CN('office:boolean-value'))
-        elif self.type == 'string':
-            return self.get_attr(CN('office:string-value'))
-        return float(self.get_attr(CN('office:value')))
+        vtype = self.type
+        return string_to_value(get_value_attribute(self.xmlnode, vtype), vtype)
 
     @value.setter
     def value(self, v):  # {{{2
         """
         Set user-field value
         """
-        vtype = type(v)
-
+        vtype = value_type_of(v)
+        set_value_attribute(self.xmlnode, vtype, value_to_string(v))
         for instance in self.instances:
             instance.value = v
-
-        if vtype == bool:
-            self.type = 'boolean'
-            self.set_bool_attr(CN('office:boolean-value'), v)
-        elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
-            self.type = 'float'
-        else:
-            self.set_attr(CN('office:string-value'), v)
-            self.type = 'string'
+        self.type = vtype
 
 
 class SimpleVariableInstance(GenericWrapper):  # {{{1
@@ -163,27 +199,23 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
     @property
     def value(self):  # {{{2
         """Gets instavce value"""
-        if self.type == 'string':
-            return self.text
-        elif self.type == 'boolean':
-            return self.text == 'true'
-        elif self.type == 'float':
-            return float(self.text)
-        else:
-            return self.text
+        vtype = self.type
+        value = None
+        if vtype != 'string': # the text can be formatted for display
+            value = get_value_attribute(self.xmlnode, vtype)
+        if value is None:
+            value = self.text or ''
+        return string_to_value(value, vtype)
 
     @value.setter
     def value(self, v):  # {{{2
         """Sets instavce value"""
 
-        vtype = type(v)
-        self.text = tostr(v)
-        if vtype == bool:
-            self.type = 'boolean'
-        elif vtype == int or vtype == float:
-            self.type = 'float'
-        else:
-            self.type = 'string'
+        vtype = value_type_of(v)
+        string = value_to_string(v)
+        self.text = string
+        set_value_attribute(self.xmlnode, vtype, string)
+        self.type = vtype
 
     @property
     def type(self):  # {{{2
@@ -220,27 +252,23 @@ class UserFieldInstance(GenericWrapper):  # {{{1
     @property
     def value(self):  # {{{2
         """Gets instavce value"""
-        if self.type == 'string':
-            return self.text
-        elif self.type == 'boolean':
-            return self.text == 'true'
-        elif self.type == 'float':
-            return float(self.text)
-        else:
-            return self.text
+        vtype = self.type
+        value = None
+        if vtype != 'string': # the text can be formatted for display
+            value = get_value_attribute(self.xmlnode, vtype)
+        if value is None:
+            value = self.text or ''
+        return string_to_value(value, vtype)
 
     @value.setter
     def value(self, v):  # {{{2
         """Sets instavce value"""
 
-        vtype = type(v)
-        self.text = tostr(v)
-        if vtype == bool:
-            self.type = 'boolean'
-        elif vtype == int or vtype == float:
-            self.type = 'float'
-        else:
-            self.type = 'string'
+        vtype = value_type_of(v)
+        string = value_to_string(v)
+        self.text = string
+        set_value_attribute(self.xmlnode, vtype, string)
+        self.type = vtype
 
     @property
     def type(self):  # {{{2
-- 
2.43.0


From 73b01aba6d2685e96b0dc86cc644d8d18a9ec4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 26/72] fix: comments in variable declarations do not prevent
 opening

---
 ezodf/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 5d9eb1a..1191124 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -75,7 +75,8 @@ class Variables(GenericWrapper):  # {{{1
         super(Variables, self).__init__(xmlnode)
         self.variables = {}
         for v in self:
-            self.variables[v.name] = v
+            if isinstance(v, Variable): # ignore comments etc.
+                self.variables[v.name] = v
 
     def __contains__(self, key):  # {{{2
         """docstring for __contains__"""
-- 
2.43.0


From 961016273428b32e757d7dbc333da62c1939579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 27/72] fix: user tags set without a type get the type 'string'

An existing tag kept the type of its previous value.
---
 ezodf/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index c17922a..52e1e5d 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -152,6 +152,8 @@ class Usertags(object):
         tag.text = tostr(value)
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
+        elif CN('meta:value-type') in tag.attrib: # type is 'string'
+            del tag.attrib[CN('meta:value-type')]
 
     def __setitem__(self, name, value):
         self.set(name, value)
-- 
2.43.0


From 4b1586be20f189b0c9878f3f07b6bf531a196618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 28/72] fix: iterating over statistics ignores foreign
 attributes and values

---
 ezodf/meta.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 52e1e5d..ddf2faf 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -238,8 +238,10 @@ class Statistic(object):
         :returns: (name, value) tulples
         """
         prefix = len(META_NS) + 2
-        for key, value in self.stats.items():
-            yield (key[prefix:-6], int(value))
+        for key in self.stats.keys():
+            name = key[prefix:-6]
+            if key == Statistic.NS % name and name in Statistic.TYPES:
+                yield (name, self[name])
 
     def update(self, d):
         """ Set statistics from dict `d`. """
-- 
2.43.0


From 30fb77de5032aff52fc58209af98adcbb9fb208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 29/72] fix: empty meta data are empty strings after reopening

Empty elements were read as None, so an empty keyword was not found.
---
 ezodf/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index ddf2faf..f399603 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -74,7 +74,7 @@ class OfficeDocumentMeta(XMLMixin):
     def __getitem__(self, key):
         element = self.meta.find(CN(TAGS[key]))
         if element is not None:
-            return element.text
+            return element.text or ''
         else:
             raise KeyError(key)
 
@@ -96,7 +96,7 @@ class Keywords(object):
     def __iter__(self):
         """ Iterate over all keywords. """
         for keyword in self.meta.findall(CN('meta:keyword')):
-            yield keyword.text
+            yield keyword.text or ''
 
     def __contains__(self, keyword):
         """ True if 'keyword' exists, else False. """
@@ -123,7 +123,7 @@ class Keywords(object):
     def _find(self, keyword):
         """ Find XML element for `keyword`. """
         for tag in self.meta.findall(CN('meta:keyword')):
-            if  keyword == tag.text:
+            if  keyword == (tag.text or ''):
                 return tag
         return None
 
@@ -137,7 +137,7 @@ class Usertags(object):
         :returns: (name, value) tuples
         """
         for metatag in self.meta.findall(CN('meta:user-defined')):
-            yield (metatag.get(CN('meta:name')), metatag.text)
+            yield (metatag.get(CN('meta:name')), metatag.text or '')
 
     def __contains__(self, name):
         return self._find(name) is not None
@@ -165,7 +165,7 @@ class Usertags(object):
         """
         tag = self._find(name)
         if tag is not None:
-            return tag.text
+            return tag.text or ''
         raise KeyError(name)
 
     def __delitem__(self, name):
-- 
2.43.0


From 518c5e077d22591385d444923e3af4f435850ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 30/72] fix: refused meta data do not create empty elements

---
 ezodf/meta.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index f399603..3724a99 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -26,6 +26,12 @@ TAGS = {
     'language': 'dc:language',
 }
 
+def check_text(text, attribute=''):
+    """ Raises ValueError/TypeError for strings not allowed in XML. """
+    probe = etree.Element('probe')
+    probe.text = text
+    probe.set('probe', attribute)
+
 @register_class
 class OfficeDocumentMeta(XMLMixin):
     TAG = CN('office:document-meta')
@@ -68,6 +74,7 @@ class OfficeDocumentMeta(XMLMixin):
 
     def __setitem__(self, key, value):
         cnkey = CN(TAGS[key]) # key in clark notation
+        check_text(value)
         element = subelement(self.meta, cnkey)
         element.text = value
 
@@ -104,6 +111,7 @@ class Keywords(object):
 
     def add(self, keyword):
         """ Add 'keyword' to meta data. """
+        check_text(keyword)
         tag = self._find(keyword)
         if tag is None:
             tag = etree.SubElement(self.meta, CN('meta:keyword'))
@@ -145,11 +153,14 @@ class Usertags(object):
     def set(self, name, value, value_type=None):
         """ Set/Replace user-defined metatag.
         """
+        value = tostr(value)
+        check_text(value, attribute=name)
+        check_text(value_type)
         tag = self._find(name)
         if tag is None:
             tag = etree.SubElement(self.meta, CN('meta:user-defined'))
             tag.set(CN('meta:name'), name)
-        tag.text = tostr(value)
+        tag.text = value
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
         elif CN('meta:value-type') in tag.attrib: # type is 'string'
-- 
2.43.0


From fbe5f9ab4f4c290dd665e9fe378b1fbc02d957bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 31/72] fix: broadcasts with a root element without children
 reach its listeners only

An element without children is False in a boolean context, the event was
sent to the listeners of all documents.
---
 ezodf/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..9c5244a 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -98,7 +98,7 @@ class Observer(object):
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
+        send = send_to_root if root is not None else send_to_all
         for listener in event_listeners:
             send(listener)
 
-- 
2.43.0


From 473ad1998e1a8ce56fc0036c67070657ea20a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 32/72] fix: listeners can subscribe and unsubscribe while
 broadcasting

---
 ezodf/observer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 9c5244a..eb293e4 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import weakref
+
 try:
     from weakref import WeakSet
 except ImportError:
@@ -99,8 +101,12 @@ class Observer(object):
             return
 
         send = send_to_root if root is not None else send_to_all
-        for listener in event_listeners:
-            send(listener)
+        # listeners can subscribe, unsubscribe or die while broadcasting
+        references = [weakref.ref(listener) for listener in event_listeners]
+        for reference in references:
+            listener = reference()
+            if listener is not None and listener in event_listeners:
+                send(listener)
 
     def _has_listener(self, event):
         # just for testing
-- 
2.43.0


From c3f480047cd9d05e5ef686738d16a6abdee853b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 33/72] fix: dates before the year 1000 are zero-padded

---
 ezodf/timeparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 0f56e75..803fe43 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -27,10 +27,10 @@ class TimeParser(object):
 
     def __str__(self):
         if self.is_date:
+            # strftime() does not support all years
+            string = "%04d-%02d-%02d" % self.value.timetuple()[:3]
             if self.has_time:
-                string = self.value.strftime(DATETIME_FORMAT)
-            else:
-                string = self.value.strftime(DATE_FORMAT)
+                string += "T%02d:%02d:%02d" % self.value.timetuple()[3:6]
         else:
             string = TimeParser.duration_to_string(self.value)
         return string
-- 
2.43.0


From e46fb01bbe0685ab80a6ead406ba1a61b817fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 34/72] fix: durations of any sign convert both ways,
 incomplete ones are refused

Negative durations were converted to text that could not be parsed again,
'P', 'PT' and 'P1DT' were accepted, fractions with a decimal point were not.
---
 ezodf/timeparser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 803fe43..129ea8a 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,8 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^(-)?P(?=[T0-9])([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
+                                  "(?:T(?=[0-9])([0-9]+H)?([0-9]+M)?([0-9]+(?:[,.][0-9]+)?S)?)?\\Z")
 
     def __init__(self, time):
         if is_string(time):
@@ -37,7 +38,7 @@ class TimeParser(object):
 
     @staticmethod
     def parse(timestr):
-        if timestr.startswith('P'):
+        if timestr.startswith('P') or timestr.startswith('-P'):
             value = TimeParser.duration_parser(timestr)
         else:
             if 'T' in timestr:
@@ -69,12 +70,17 @@ class TimeParser(object):
 
         matchresult = TimeParser.duration_matcher.match(duration)
         if matchresult:
-            timeparts = [clean(part) for part in matchresult.groups()]
+            sign = matchresult.group(1)
+            timeparts = [clean(part) for part in matchresult.groups()[1:]]
             years, months, days, hours, minutes, seconds = timeparts
             days = years * 365 + months * 30 + days
         else:
             raise ValueError('not a valid duration: %s' % duration)
-        return timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+        try:
+            value = timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+        except OverflowError:
+            raise ValueError('duration out of range: %s' % duration)
+        return -value if sign else value
 
     @staticmethod
     def duration_to_string(duration):
@@ -85,6 +91,9 @@ class TimeParser(object):
             seconds = seconds % 60
             return (hours, minutes, seconds)
 
+        if duration < timedelta(0):
+            return '-' + TimeParser.duration_to_string(-duration)
+
         timeparts = ["P%dD" % duration.days] if duration.days else ["P"]
         timeparts.append("T%02dH%02dM%02d" % get_time(duration.seconds))
         micros = duration.microseconds
-- 
2.43.0


From e882492eb7367e3cd0f6bf1029192ad7661ff963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 35/72] fix: assigned styles can be read from the style
 container

The cache of the container stored the wrapper object instead of the XML
element, and styles which were renamed or replaced.
---
 ezodf/styles.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..c70ae41 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -38,7 +38,6 @@ class Container(object):
     def __init__(self, xmlnode):
         assert xmlnode.tag == self.TAG
         self.xmlnode = xmlnode
-        self._cache = {}
 
     def __getitem__(self, key):
         style = self._find(key) # by style:name attribute
@@ -53,17 +52,11 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
 
     def _find(self, name):
-        try:
-            return self._cache[name]
-        except KeyError:
-            for style in self.xmlnode.iterchildren():
-                stylename = style.get(CN('style:name'))
-                if stylename == name:
-                    self._cache[name] = style
-                    return style
+        for style in self.xmlnode.iterchildren():
+            if style.get(CN('style:name')) == name:
+                return style
         return None
 
 @register_class
-- 
2.43.0


From 7ce75eaee43d1bb6c69831a884dd187666b80a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 36/72] fix: style attributes can be set

---
 ezodf/styles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index c70ae41..a4dc678 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -90,6 +90,7 @@ class BaseStyle:
 
     def __setitem__(self, key, value):
         """ Set style attribute 'key' to 'value'. """
+        self.xmlnode.set(self.ATTRIBUTEMAP[key], value)
 
     def _properties(self, key, property_factory, new=True):
         """ Get or create a properties element. """
-- 
2.43.0


From 202bc9c0cf369979694a8299a37e97496d44e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 37/72] fix: page layouts can be read from the style container

Wrapping a page layout raised a TypeError; its header and footer properties
are created on demand only, reading does not change the document.
---
 ezodf/styles.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index a4dc678..b004b1c 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -97,7 +97,7 @@ class BaseStyle:
         element = subelement(self.xmlnode, key , new)
         if element is None:
             raise KeyError(key)
-        propertiesname = key + '-properties'
+        propertiesname = CN('style:header-footer-properties')
         properties = element.find(propertiesname)
         if properties is None:
             properties = etree.SubElement(element, propertiesname)
@@ -140,10 +140,13 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
-        self.header = self._properties(CN('style:header-style'), HeaderProperties)
-        self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
+    @property
+    def header(self):
+        return self._properties(CN('style:header-style'), HeaderProperties)
+
+    @property
+    def footer(self):
+        return self._properties(CN('style:footer-style'), HeaderProperties)
 
 @register_class
 class FontFace(BaseStyle):
-- 
2.43.0


From 95a67a34f4282161d0a20e5e9146a4daee086ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 38/72] fix: an unexpected root node of styles.xml raises
 ValueError

---
 ezodf/styles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index b004b1c..f178f8d 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -23,7 +23,7 @@ class OfficeDocumentStyles(XMLMixin):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
         else:
-            raise ValueError("Unexpected root node: %s" % content.tag)
+            raise ValueError("Unexpected root node: %s" % xmlnode.tag)
         self._setup()
 
     def _setup(self):
-- 
2.43.0


From 333899bfe0863351e455efff31e6ed731ce1df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 39/72] fix: all references to a table share the same state

Iterating over a body, find(), findall() and get_child() created further
Table objects for the same table, which did not notice changes of each
other's rows and columns.
---
 ezodf/table.py     | 6 ++++++
 ezodf/wrapcache.py | 5 +++++
 ezodf/xmlns.py     | 4 +++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index b128112..072178a 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -47,6 +47,12 @@ class Table(GenericWrapper):
             self._columns_info.align(self.ncols())
         wrapcache.add(self)
 
+    @classmethod
+    def from_xmlnode(cls, xmlnode):
+        # a table has a state, it must not have more than one wrapper object
+        table = wrapcache.get(xmlnode)
+        return cls(xmlnode=xmlnode) if table is None else table
+
     def __getitem__(self, key):
         if isinstance(key, int):
             return self.get_child(key)
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index a54361d..982d437 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -22,6 +22,10 @@ class _WrapCache(object):
         self.add(wrapped_object)
         return wrapped_object
 
+    def get(self, element):
+        """ Get existing wrapper object for `element` or None. """
+        return self._cache.get(id(element))
+
     def add(self, wrapped_object):
         self._cache[id(wrapped_object.xmlnode)] = wrapped_object
 
@@ -33,6 +37,7 @@ class _WrapCache(object):
 
 _wrapcache = _WrapCache()
 wrap = _wrapcache.wrap
+get = _wrapcache.get
 clear = _wrapcache.clear
 add = _wrapcache.add
 remove = _wrapcache.remove
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a4af9f8..b5ba5d4 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -90,7 +90,9 @@ class _ClassRegistry(object):
             cls = self._classmap[element.tag]
         except KeyError: # wrap it into the GenericWrapper
             cls = self._classmap['GenericWrapper']
-        return cls(xmlnode=element)
+        # class can manage its wrapper objects
+        create = getattr(cls, 'from_xmlnode', cls)
+        return create(xmlnode=element)
 
 
 _class_registry = _ClassRegistry()
-- 
2.43.0


From c08937cec731ef6ef2e0a6c8964df6956433dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 40/72] fix: master, web, chart-template and image-template
 documents are supported

Creating or opening documents of these documented types raised a KeyError.
---
 ezodf/const.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/const.py b/ezodf/const.py
index 86b6fc4..442c4cd 100644
--- a/ezodf/const.py
+++ b/ezodf/const.py
@@ -195,7 +195,11 @@ MIMETYPE_NSMAP = {
     "application/vnd.oasis.opendocument.spreadsheet": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.spreadsheet-template": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.chart" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.chart-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.image" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.image-template" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.text-master" : TEXT_NSMAP,
+    "application/vnd.oasis.opendocument.text-web" : TEXT_NSMAP,
     "application/vnd.oasis.opendocument.formula" : GRAPHICS_NSMAP,
 }
 
@@ -209,7 +213,11 @@ MIMETYPE_BODYTAG_MAP = {
     "application/vnd.oasis.opendocument.spreadsheet": "office:spreadsheet",
     "application/vnd.oasis.opendocument.spreadsheet-template": "office:spreadsheet",
     "application/vnd.oasis.opendocument.chart" : "office:chart",
+    "application/vnd.oasis.opendocument.chart-template" : "office:chart",
     "application/vnd.oasis.opendocument.image" : "office:image",
+    "application/vnd.oasis.opendocument.image-template" : "office:image",
+    "application/vnd.oasis.opendocument.text-master" : "office:text",
+    "application/vnd.oasis.opendocument.text-web" : "office:text",
 }
 
 DEFAULT_TABLE_EXPAND_STRATEGY = "all_less_maxcount"
-- 
2.43.0


From 9d57fedee1af658dc0a95ae0ef42f1fd6079a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 41/72] fix: duplicate names of a source package are written
 once

---
 ezodf/filemanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e02b58b..c6e4d60 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -192,9 +192,12 @@ class FileManager(object):
 
     @staticmethod
     def _copy_from_zip_to_zip(fromzip, tozip, ignore):
+        processed = set(ignore)
         for zipinfo in fromzip.filelist:
-            if zipinfo.filename not in ignore:
+            # a name can occur more than once in damaged packages
+            if zipinfo.filename not in processed:
                 tozip.writestr(zipinfo, fromzip.read(zipinfo.filename))
+                processed.add(zipinfo.filename)
 
     def tobytes(self):
         iobuffer = StringIO()
-- 
2.43.0


From 5760f4c8e68d216428f3b1226b2e47b3f1cc3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 42/72] fix: Table.delete_columns() refuses negative indices
 outside of the table

---
 ezodf/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 072178a..25409f6 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -189,9 +189,10 @@ class Table(GenericWrapper):
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
-        if index < 0: # refers to the columns of the table
-            index += self.ncols()
+        ncols = self.ncols()
         self._cellmatrix.delete_columns(index, count)
+        if index < 0: # refers to the columns of the table
+            index += ncols
         self._columns_info.delete(index, count)
 
     def set_cell_span(self, pos, size):
-- 
2.43.0


From 6e67e6cc44047a48afc456754bd763ced861d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 43/72] fix: table expand strategy 'all_less_maxcount' with a
 maxcount of 1

---
 ezodf/tableutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index fa4af8d..5c64ccc 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -129,8 +129,8 @@ class RepetitionAttribute(object):
 
     @cols.deleter
     def cols(self):
-        del self.xmlnode.attrib[CN('table:number-columns-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-columns-repeated'), None)
 
     @rows.deleter
     def rows(self):
-        del self.xmlnode.attrib[CN('table:number-rows-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-rows-repeated'), None)
-- 
2.43.0


From 581b558fde0be2ea3fdace11741e542bb8138724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 44/72] fix: textlen of list items and table cells

---
 ezodf/cells.py | 4 ++++
 ezodf/text.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 51355b1..a802e97 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -179,6 +179,10 @@ class Cell(GenericWrapper):
         else:
             self.replace(first_paragraph, display_form)
 
+    @property
+    def textlen(self):
+        return len(self.plaintext())
+
     def plaintext(self):
         return "\n".join([p.plaintext() for p in iter(self)
                           if p.kind in SUPPORTED_CELL_CONTENT])
diff --git a/ezodf/text.py b/ezodf/text.py
index eb7a4d5..a510a85 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -145,6 +145,10 @@ class ListHeader(GenericWrapper):
             if text:
                 self.append(Paragraph(text))
 
+    @property
+    def textlen(self):
+        return len(self.plaintext())
+
     def plaintext(self):
         return '\n'.join([e.plaintext() for e in iter(self)])
 
-- 
2.43.0


From 42879e46c1756b964518b616aff787110ed2663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 45/72] fix: durations below the smallest timedelta raise
 ValueError

---
 ezodf/timeparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 129ea8a..ef84a27 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -78,9 +78,9 @@ class TimeParser(object):
             raise ValueError('not a valid duration: %s' % duration)
         try:
             value = timedelta(days=days, hours=hours, minutes=minutes, seconds=seconds)
+            return -value if sign else value
         except OverflowError:
             raise ValueError('duration out of range: %s' % duration)
-        return -value if sign else value
 
     @staticmethod
     def duration_to_string(duration):
-- 
2.43.0


From 24dc6f682cda94bb763272cc73f23187583f8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 46/72] fix: subscribe and broadcast in different threads

---
 ezodf/observer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index eb293e4..0a6fad4 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import threading
 import weakref
 
 try:
@@ -49,23 +50,27 @@ class Observer(object):
 
     def __init__(self):
         self._listeners = dict()
+        # documents can be used in different threads
+        self._lock = threading.RLock()
 
     def subscribe(self, event, listener_object):
         event_handler_name = "on_%s_handler" % event
         if not hasattr(listener_object, event_handler_name):
             raise AttributeError("Listener object has no '%s' event handler." % event)
-        try:
-            event_listeners = self._listeners[event]
-        except KeyError:
-            event_listeners = WeakSet()
-            self._listeners[event] = event_listeners
-        event_listeners.add(listener_object)
+        with self._lock:
+            try:
+                event_listeners = self._listeners[event]
+            except KeyError:
+                event_listeners = WeakSet()
+                self._listeners[event] = event_listeners
+            event_listeners.add(listener_object)
 
     def unsubscribe(self, event, listener_object):
         # Unsubscribing for objects which will be destroyed is not neccessary,
         # just unsubscribe objects that should not receive further messages.
-        event_listeners = self._listeners[event]
-        event_listeners.remove(listener_object)
+        with self._lock:
+            event_listeners = self._listeners[event]
+            event_listeners.remove(listener_object)
 
     def broadcast(self, event, msg=None, root=None):
         """ Broadcast an 'event' and submit 'msg' to the listeners event handler.
@@ -102,7 +107,8 @@ class Observer(object):
 
         send = send_to_root if root is not None else send_to_all
         # listeners can subscribe, unsubscribe or die while broadcasting
-        references = [weakref.ref(listener) for listener in event_listeners]
+        with self._lock:
+            references = [weakref.ref(listener) for listener in event_listeners]
         for reference in references:
             listener = reference()
             if listener is not None and listener in event_listeners:
-- 
2.43.0


From 2ab05ce5d6027dad920c973f673884862c2f8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 47/72] fix: meta updates with an invalid entry leave the
 metadata unchanged

---
 ezodf/meta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 3724a99..a825c85 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -199,6 +199,8 @@ class Usertags(object):
 
     def update(self, d):
         """ Set user defined tags from dict `d`. """
+        for key, value in d.items(): # set all or nothing
+            check_text(tostr(value), attribute=key)
         for key, value in d.items():
             self.__setitem__(key, value)
 
@@ -256,6 +258,10 @@ class Statistic(object):
 
     def update(self, d):
         """ Set statistics from dict `d`. """
+        for key, value in d.items(): # set all or nothing
+            if key not in Statistic.TYPES:
+                raise KeyError(key)
+            check_text(tostr(value))
         for key, value in d.items():
             self.__setitem__(key, value)
 
-- 
2.43.0


From 6a8e910175622884ee0da7e7d224314c8647e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 48/72] fix: refused texts do not change elements

---
 ezodf/base.py           | 4 +++-
 ezodf/meta.py           | 8 +-------
 ezodf/propertymixins.py | 6 ++++--
 ezodf/text.py           | 5 ++++-
 ezodf/xmlns.py          | 6 ++++++
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 61f9bc1..90f3482 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import etree, register_class, wrap
+from .xmlns import etree, register_class, wrap, check_text
 from .compatibility import itermap, tostr
 
 def safelen(text):
@@ -34,6 +34,7 @@ class GenericWrapper(object):
         return self.xmlnode.text
     @text.setter
     def text(self, value):
+        check_text(value)
         self.xmlnode.text = value
 
     @property
@@ -41,6 +42,7 @@ class GenericWrapper(object):
         return self.xmlnode.tail
     @tail.setter
     def tail(self, value):
+        check_text(value)
         self.xmlnode.tail = value
 
     @property
diff --git a/ezodf/meta.py b/ezodf/meta.py
index a825c85..bb9ad65 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -10,7 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 from datetime import datetime
 
 from .compatibility import tostr
-from .xmlns import CN, subelement, etree, register_class, XMLMixin
+from .xmlns import CN, subelement, etree, register_class, XMLMixin, check_text
 from .const import META_NSMAP, GENERATOR, META_NS
 
 TAGS = {
@@ -26,12 +26,6 @@ TAGS = {
     'language': 'dc:language',
 }
 
-def check_text(text, attribute=''):
-    """ Raises ValueError/TypeError for strings not allowed in XML. """
-    probe = etree.Element('probe')
-    probe.text = text
-    probe.set('probe', attribute)
-
 @register_class
 class OfficeDocumentMeta(XMLMixin):
     TAG = CN('office:document-meta')
diff --git a/ezodf/propertymixins.py b/ezodf/propertymixins.py
index 96da21a..5c0003f 100644
--- a/ezodf/propertymixins.py
+++ b/ezodf/propertymixins.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr
-from .xmlns import CN, subelement
+from .xmlns import CN, subelement, check_text
 
 
 def StringProperty(name, doc=None):
@@ -86,8 +86,10 @@ class TextNumberingMixin(object):
         return formatted_number.text if formatted_number is not None else None
     @formatted_number.setter
     def formatted_number(self, value):
+        value = tostr(value)
+        check_text(value)
         formatted_number = subelement(self.xmlnode, CN('text:number'))
-        formatted_number.text = tostr(value)
+        formatted_number.text = value
 
 class TableVisibilityMixin(object):
     VALID_VISIBILITY_STATES = frozenset( ('visible', 'collapse', 'filter') )
diff --git a/ezodf/text.py b/ezodf/text.py
index a510a85..44c4dd9 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from.compatibility import is_string
-from .xmlns import CN, register_class, subelement, wrap
+from .xmlns import CN, register_class, subelement, wrap, check_text
 from .base import GenericWrapper, safelen
 from .whitespaces import encode_whitespaces, Spaces
 from .protection import random_protection_key
@@ -63,6 +63,9 @@ class Span(GenericWrapper):
             # a sequence of spaces in the XML text collapses to one space
             tags[:1] = [Spaces(1), tags[0][1:]]
 
+        for tag in tags: # append all or nothing
+            if is_string(tag):
+                check_text(tag)
         for tag in tags:
             if is_string(tag):
                 if len(self.xmlnode) > 0:
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index b5ba5d4..a18e06b 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -19,6 +19,12 @@ def subelement(parent, tag, new=True):
         element = etree.SubElement(parent, tag)
     return element
 
+def check_text(text, attribute=''):
+    """ Raises ValueError/TypeError for strings not allowed in XML. """
+    probe = etree.Element('probe')
+    probe.text = text
+    probe.set('probe', attribute)
+
 class _XMLNamespaces(object):
     def __init__(self, namespaces):
         self.prefix2uri = {}
-- 
2.43.0


From a07a2caa81bafda977728a426948818266c2acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 49/72] fix: refused column indices leave the table unchanged

---
 ezodf/tableutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 5c64ccc..0938a67 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -99,7 +99,9 @@ def check_index_range(index, count, limit):
     """ Returns not negative start index, raises IndexError if the range
     [index, index+count[ exceeds the limits.
     """
-    start = index + limit if index < 0 else index
+    start = operator.index(index)
+    if start < 0:
+        start += limit
     if start < 0 or start + count > limit:
         raise IndexError('index out of range: %s' % tostr(index))
     return start
-- 
2.43.0


From d2ff5f9249ad13ded2379e0b2dbc569f8d54f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 50/72] fix: clearing a table keeps its name as it is

---
 ezodf/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 25409f6..11989fe 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -101,7 +101,7 @@ class Table(GenericWrapper):
         super(Table, self).clear()
 
         if preserve_name is not None: # sub tables can be nameless
-            self.name = preserve_name
+            self.xmlnode.set(CN('table:name'), preserve_name)
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
-- 
2.43.0


From bde8b6224d8bfebc8d88752f159f40d872cc171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 51/72] fix: packages with an empty XML part are refused

---
 ezodf/filemanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index c6e4d60..acb85aa 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -154,7 +154,7 @@ class FileManager(object):
 
     def get_xml_element(self, filename):
         filecontent = self.get_bytes(filename)
-        if filecontent:
+        if filecontent is not None:
             return etree.XML(filecontent)
         else:
             return None
-- 
2.43.0


From d9674e3e9de5ec4681d4463c4213ead70c55fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 52/72] fix: comments in front of injected styles

---
 ezodf/xmlns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a18e06b..8d68908 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -115,5 +115,6 @@ WRAPNS = """<root
     ))
 
 def fake_element(xmlcontent):
-    element = etree.XML(WRAPNS % xmlcontent)
-    return wrap(element[0])
+    root = etree.XML(WRAPNS % xmlcontent)
+    elements = list(root.iterchildren(tag=etree.Element)) # without comments
+    return wrap(elements[0])
-- 
2.43.0


From fc3d5432665e66dea582a0c3c84dc26a238fb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 53/72] fix: empty formatted numbers are the same after
 reopening

---
 ezodf/propertymixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/propertymixins.py b/ezodf/propertymixins.py
index 5c0003f..d31f566 100644
--- a/ezodf/propertymixins.py
+++ b/ezodf/propertymixins.py
@@ -83,7 +83,9 @@ class TextNumberingMixin(object):
     @property
     def formatted_number(self):
         formatted_number = self.xmlnode.find(CN('text:number'))
-        return formatted_number.text if formatted_number is not None else None
+        if formatted_number is None:
+            return None
+        return formatted_number.text or '' # same value after reopening
     @formatted_number.setter
     def formatted_number(self, value):
         value = tostr(value)
-- 
2.43.0


From 676f76c619766ac3cecb56914b1dc611fd637b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 54/72] fix: added and removed declarations are seen by all
 variable containers

---
 ezodf/variables.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 1191124..aeb49e5 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -70,27 +70,27 @@ def get_value_attribute(xmlnode, value_type):
 
 class Variables(GenericWrapper):  # {{{1
 
-    def __init__(self, xmlnode=None):  # {{{2
-        """docstring for __init__"""
-        super(Variables, self).__init__(xmlnode)
-        self.variables = {}
-        for v in self:
-            if isinstance(v, Variable): # ignore comments etc.
-                self.variables[v.name] = v
+    @property
+    def variables(self):  # {{{2
+        """Declared variables by name, declarations can be added and removed"""
+        return dict((v.name, v) for v in self
+                    if isinstance(v, Variable)) # ignore comments etc.
 
     def __contains__(self, key):  # {{{2
         """docstring for __contains__"""
         return key in self.variables
 
     def __getitem__(self, index):  # {{{2
-        if index in self.variables:
-            return self.variables[index]
+        variables = self.variables
+        if index in variables:
+            return variables[index]
         else:
             return self.get_child(index)
 
     def __setitem__(self, index, value):  # {{{2
-        if index in self.variables:
-            self.variables[index].value = value
+        variables = self.variables
+        if index in variables:
+            variables[index].value = value
         else:
             return self.set_child(index, value)
 
-- 
2.43.0


From 615b8e3c96c746a4e04524482e9e07ce21940965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 55/72] fix: reading from a damaged package leaves the package
 file open

---
 ezodf/filemanager.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index acb85aa..cd079a0 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -135,13 +135,16 @@ class FileManager(object):
         filecontent = None
         if self.has_zip():
             bytestream = self._open_bytestream()
-            zipfile_ = zipfile.ZipFile(bytestream, 'r')
-            try:
-                filecontent = zipfile_.read(filename)
-            except KeyError:
-                pass
-            zipfile_.close()
-            bytestream.close()
+            try: # close the file also if the package is damaged
+                zipfile_ = zipfile.ZipFile(bytestream, 'r')
+                try:
+                    filecontent = zipfile_.read(filename)
+                except KeyError:
+                    pass
+                finally:
+                    zipfile_.close()
+            finally:
+                bytestream.close()
         return filecontent
 
     def get_text(self, filename, default=None):
@@ -182,12 +185,13 @@ class FileManager(object):
                 raise IOError("Source package is not accessible anymore: %s" % self.zipname)
             return # nothing to copy
         bytestream = self._open_bytestream()
-
-        origzip = zipfile.ZipFile(bytestream)
         try:
-            self._copy_from_zip_to_zip(origzip, newzip, ignore)
+            origzip = zipfile.ZipFile(bytestream)
+            try:
+                self._copy_from_zip_to_zip(origzip, newzip, ignore)
+            finally:
+                origzip.close()
         finally:
-            origzip.close()
             bytestream.close()
 
     @staticmethod
@@ -235,12 +239,14 @@ def check_zipfile_for_oasis_validity(filename, mimetype):
     if buffer[30:] != b'mimetype'+mimetype:
         return False
     zf = zipfile.ZipFile(filename)
-    names = zf.namelist()
-    if 'META-INF/manifest.xml' in names:
-        manifest = zf.read('META-INF/manifest.xml')
-    else:
-        manifest = None
-    zf.close()
+    try:
+        names = zf.namelist()
+        if 'META-INF/manifest.xml' in names:
+            manifest = zf.read('META-INF/manifest.xml')
+        else:
+            manifest = None
+    finally:
+        zf.close()
 
     if manifest is None:
         return False
-- 
2.43.0


From c9c5d6c2c2d26f6dcc5e4021efe6a31de4be8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 56/72] fix: new flat XML documents are saved without the
 required mimetype and can not be opened again

---
 ezodf/document.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index 86b7020..a512e94 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -154,6 +154,7 @@ class FlatXMLDocument(_BaseDocument):
 
         if xmlnode is None: # new document
             self.xmlnode = etree.Element(self.TAG, nsmap=ALL_NSMAP)
+            self.xmlnode.set(CN('office:mimetype'), self.mimetype) # required
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
-- 
2.43.0


From d446a7fde71131e7dc88ee95ec3b1ac08acf2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 57/72] fix: equal and unhashable listeners receive events

---
 ezodf/observer.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 0a6fad4..61c2812 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -10,11 +10,6 @@ __author__ = "mozman <mozman@gmx.at>"
 import threading
 import weakref
 
-try:
-    from weakref import WeakSet
-except ImportError:
-    from weakrefset import WeakSet
-
 class Observer(object):
     """ Simple implementation of the observer pattern for broadcasting messages
     to objects.
@@ -61,16 +56,17 @@ class Observer(object):
             try:
                 event_listeners = self._listeners[event]
             except KeyError:
-                event_listeners = WeakSet()
+                # by identity, different listeners can be equal
+                event_listeners = weakref.WeakValueDictionary()
                 self._listeners[event] = event_listeners
-            event_listeners.add(listener_object)
+            event_listeners[id(listener_object)] = listener_object
 
     def unsubscribe(self, event, listener_object):
         # Unsubscribing for objects which will be destroyed is not neccessary,
         # just unsubscribe objects that should not receive further messages.
         with self._lock:
             event_listeners = self._listeners[event]
-            event_listeners.remove(listener_object)
+            del event_listeners[id(listener_object)]
 
     def broadcast(self, event, msg=None, root=None):
         """ Broadcast an 'event' and submit 'msg' to the listeners event handler.
@@ -108,10 +104,10 @@ class Observer(object):
         send = send_to_root if root is not None else send_to_all
         # listeners can subscribe, unsubscribe or die while broadcasting
         with self._lock:
-            references = [weakref.ref(listener) for listener in event_listeners]
+            references = event_listeners.valuerefs()
         for reference in references:
             listener = reference()
-            if listener is not None and listener in event_listeners:
+            if listener is not None and event_listeners.get(id(listener)) is listener:
                 send(listener)
 
     def _has_listener(self, event):
-- 
2.43.0


From 5988803ce0084364ba2e41351b000497f1ecd564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 58/72] fix: comments do not end the closing section of a body

---
 ezodf/nodeorganizer.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ezodf/nodeorganizer.py b/ezodf/nodeorganizer.py
index f491c87..58fbfe8 100644
--- a/ezodf/nodeorganizer.py
+++ b/ezodf/nodeorganizer.py
@@ -74,13 +74,15 @@ class PreludeTagBlock(object):
 
         counter = 0
         tags = self.tags
-        for child in self._iter_children():
+        for position, child in enumerate(self._iter_children(), 1):
+            if callable(child.tag): # comments do not end the block
+                continue
             if child.tag == tags[0]:
-                counter += 1
+                counter = position
             else:
                 try:
                     tags = tags[tags.index(child.tag):]
-                    counter += 1
+                    counter = position
                 except ValueError: # not in list
                     break
         return counter
@@ -89,14 +91,10 @@ class PreludeTagBlock(object):
         self._check_for_valid_tag(tag)
 
         def get_pos_and_count(tag, elements):
-            last_pos = -1
-            count = 0
-            for pos, element in enumerate(elements):
-                if element.tag == tag:
-                    count += 1
-                    last_pos = pos
-            if count > 0:
-                return (last_pos - count + 1, count)
+            positions = [pos for pos, element in enumerate(elements)
+                         if element.tag == tag]
+            if positions: # comments between the elements are counted too
+                return (positions[0], positions[-1] - positions[0] + 1)
             else:
                 return (-1, 0)
 
-- 
2.43.0


From 666855ffa97f212a04ef3c626e8f5f2f673d6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 59/72] fix: comments in table rows are no cells

---
 ezodf/tablenormalizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ezodf/tablenormalizer.py b/ezodf/tablenormalizer.py
index bcaca5e..75f277b 100644
--- a/ezodf/tablenormalizer.py
+++ b/ezodf/tablenormalizer.py
@@ -133,6 +133,11 @@ class TableNormalizer(object):
             raise TypeError("Unknown expand strategy: %s" % expand)
         strategy.normalize(get_table_rows(self.xmlnode), maxcount)
 
+    def move_comments_out_of_rows(self):
+        # comments and processing instructions are no cells
+        for xmlrow in get_table_rows(self.xmlnode):
+            for node in xmlrow.xpath('comment()|processing-instruction()'):
+                xmlrow.addprevious(node)
 
     def align_table_columns(self):
         def append_cells(xmlrow, count):
@@ -153,5 +158,6 @@ def normalize_table(xmlnode,
                     expand=const.DEFAULT_TABLE_EXPAND_STRATEGY, 
                     maxcount=const.DEFAULT_MAXCOUNT):
     normalizer = TableNormalizer(xmlnode)
+    normalizer.move_comments_out_of_rows()
     normalizer.expand_repeated_table_content(expand, maxcount)
     normalizer.align_table_columns()
-- 
2.43.0


From e857a7c9a876de550e3e4a28492fc6046a5b084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 60/72] fix: copies of table content do not duplicate xml:id
 identifiers

---
 ezodf/table.py                 |  6 ++----
 ezodf/tablecolumncontroller.py |  8 +++-----
 ezodf/tablenormalizer.py       |  5 ++---
 ezodf/tablerowcontroller.py    |  6 ++----
 ezodf/xmlns.py                 | 13 +++++++++++++
 5 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 11989fe..65562a0 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -7,10 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import copy
-
 from .compatibility import is_string
-from .xmlns import register_class, CN, wrap, etree
+from .xmlns import register_class, CN, wrap, etree, copy_element
 from . import wrapcache
 from .base import GenericWrapper
 from .protection import random_protection_key
@@ -110,7 +108,7 @@ class Table(GenericWrapper):
         self.reset(size)
 
     def copy(self, newname=None):
-        newtable = Table(xmlnode=copy.deepcopy(self.xmlnode))
+        newtable = Table(xmlnode=copy_element(self.xmlnode))
         if newname is None:
             newname = 'CopyOf' + (self.name or '')
         newtable.name = newname
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 72fa6e2..ba4a407 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -7,9 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import copy
-
-from .xmlns import CN, etree
+from .xmlns import CN, etree, copy_element
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
 from .tableutils import is_table, get_table_columns, RepetitionAttribute
@@ -22,7 +20,7 @@ def new_empty_column():
 class _ExpandAll(object):
     def expand_element(self, count, xmlnode):
         while count > 1:
-            clone = copy.deepcopy(xmlnode)
+            clone = copy_element(xmlnode)
             xmlnode.addnext(clone)
             count -= 1
 
@@ -120,7 +118,7 @@ class TableColumnController(object):
     def __setitem__(self, pos, element):
         self._check_column_type(element)
         oldcolumn = self._columns[pos]
-        newcolumn = copy.deepcopy(element)
+        newcolumn = copy_element(element)
         oldcolumn.getparent().replace(oldcolumn, newcolumn)
         self._columns[pos] = newcolumn
 
diff --git a/ezodf/tablenormalizer.py b/ezodf/tablenormalizer.py
index 75f277b..d2191f3 100644
--- a/ezodf/tablenormalizer.py
+++ b/ezodf/tablenormalizer.py
@@ -7,8 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import copy
-
+from .xmlns import copy_element
 from .tableutils import new_empty_cell, get_table_rows, is_table
 from .tableutils import get_min_max_cell_count, count_cells_in_row
 from .tableutils import RepetitionAttribute
@@ -25,7 +24,7 @@ class _ExpandAll:
 
     def expand_element(self, xmlnode, count):
         while count > 1:
-            clone = copy.deepcopy(xmlnode)
+            clone = copy_element(xmlnode)
             xmlnode.addnext(clone)
             count -= 1
 
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 063acd0..4705425 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,10 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import copy
-
 from .compatibility import tostr
-from .xmlns import CN, etree
+from .xmlns import CN, etree, copy_element
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
 from .tableutils import get_table_rows, new_empty_cell, is_table
@@ -50,7 +48,7 @@ class TableCellAccessor(object):
             return
         if element.getparent() is not None:
             # cell is located in a table, do not remove it from there
-            element = copy.deepcopy(element)
+            element = copy_element(element)
         xmlrow[col] = element
 
     def _adjust_negative_indices(self, pos):
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index 8d68908..5864723 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import copy
+
 from lxml import etree
 
 from .const import ALL_NSMAP
@@ -19,6 +21,17 @@ def subelement(parent, tag, new=True):
         element = etree.SubElement(parent, tag)
     return element
 
+XML_ID = '{http://www.w3.org/XML/1998/namespace}id'
+
+def copy_element(element):
+    """ Returns a copy of `element` without xml:id attributes, because an ID has
+    to be unique in a document, a document with duplicates can't be reopened.
+    """
+    clone = copy.deepcopy(element)
+    for node in clone.iter(etree.Element):
+        node.attrib.pop(XML_ID, None)
+    return clone
+
 def check_text(text, attribute=''):
     """ Raises ValueError/TypeError for strings not allowed in XML. """
     probe = etree.Element('probe')
-- 
2.43.0


From 0eff19b5d97f01778f7f86e17ba692b91ea9f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 61/72] fix: remove cell spans exceeding the table

---
 ezodf/cellspancontroller.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 12277ea..d1ace96 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -68,11 +68,16 @@ class CellSpanController(object):
     def remove_span(self, pos):
         if not self.is_cell_spanning(pos):
             return # should it raise an error?
-        size = self._get_cell(pos).span
-        for cell_index in iter_cell_range(pos, size):
+        for cell_index in iter_cell_range(pos, self._span_inside_table(pos)):
             self._uncover_cell(cell_index)
         self._remove_span_attributes(pos)
 
+    def _span_inside_table(self, pos):
+        # the span can exceed the table, if rows or columns were deleted
+        nrows, ncols = self._get_cell(pos).span
+        return (min(nrows, self._row_controller.nrows() - pos[0]),
+                min(ncols, self._row_controller.ncols() - pos[1]))
+
     def _remove_span_attributes(self, pos):
         cell = self._get_cell(pos)
         cell._del_span_attributes()
-- 
2.43.0


From f3fdbf9701948beb6a40bc803cedcb59532a93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 62/72] fix: spaces appended behind a space of a child element
 or to a cell do not collapse

---
 ezodf/cells.py | 12 ++++++++++--
 ezodf/text.py  | 26 ++++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a802e97..109a52a 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -9,7 +9,8 @@ __author__ = "mozman <mozman@gmx.at>"
 
 from .xmlns import register_class, CN
 from .base import GenericWrapper
-from .text import Paragraph, Span
+from .text import Paragraph, Span, ends_with_space
+from .whitespaces import Spaces
 from .propertymixins import StringProperty, BooleanProperty
 from .compatibility import tostr, is_string
 
@@ -193,7 +194,14 @@ class Cell(GenericWrapper):
         try:
             last_child = self.get_child(-1)
             if last_child.kind in ("Paragraph", "Heading"):
-                last_child.append(Span(text, style_name=style_name))
+                if is_string(text) and text.startswith(' ') and ends_with_space(last_child.xmlnode):
+                    # a sequence of spaces in the XML text collapses to one space
+                    span = Span(style_name=style_name)
+                    span.append(Spaces(1))
+                    span.append_text(text[1:])
+                else:
+                    span = Span(text, style_name=style_name)
+                last_child.append(span)
                 return
         except IndexError:
             pass
diff --git a/ezodf/text.py b/ezodf/text.py
index 44c4dd9..f6c6f29 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -16,6 +16,23 @@ from .propertymixins import StringProperty, TextNumberingMixin, BooleanProperty
 from .propertymixins import IntegerWithLowerLimitProperty
 
 
+WHITESPACES = (CN('text:s'), CN('text:tab'), CN('text:line-break'))
+
+def ends_with_space(xmlnode):
+    """ True if the text of `xmlnode`, including the text of its children, ends
+    with a space character (but not with an element for white space).
+    """
+    def last_text(xmlnode):
+        for child in reversed(xmlnode):
+            if child.tail or child.tag in WHITESPACES:
+                return child.tail or ''
+            text = None if callable(child.tag) else last_text(child)
+            if text is not None:
+                return text
+        return xmlnode.text or None
+
+    return (last_text(xmlnode) or '').endswith(' ')
+
 @register_class
 class Span(GenericWrapper):
     TAG = CN('text:span')
@@ -51,15 +68,8 @@ class Span(GenericWrapper):
         def append(text, new):
             return text + new if text else new
 
-        def ends_with_space():
-            if len(self.xmlnode) > 0:
-                last_text = self.xmlnode[-1].tail
-            else:
-                last_text = self.xmlnode.text
-            return bool(last_text) and last_text.endswith(' ')
-
         tags = encode_whitespaces(text)
-        if len(tags) and is_string(tags[0]) and tags[0].startswith(' ') and ends_with_space():
+        if len(tags) and is_string(tags[0]) and tags[0].startswith(' ') and ends_with_space(self.xmlnode):
             # a sequence of spaces in the XML text collapses to one space
             tags[:1] = [Spaces(1), tags[0][1:]]
 
-- 
2.43.0


From ac97c405ac2476776f246c81e57a6cb7baa45b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 63/72] fix: use templates without a mimetype member like
 opendoc() does

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index a512e94..9c8d4ed 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -91,7 +91,7 @@ def _new_doc_from_template(filename, templatename):
             raise IOError('File does not exist or it is not a zipfile: %s' % tostr(buffer))
 
     fm = get_filemanager(templatename)
-    mimetype = fm.get_text('mimetype')
+    mimetype = __detect_mime_type(fm)
     if mimetype.endswith('-template'):
         mimetype = mimetype[:-9]
     try:
-- 
2.43.0


From 8e2dd39c1eb24024eaba3a44e5e6c67d2ccb5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 64/72] fix: insert() in front of the first child with large
 negative indices like lists do

---
 ezodf/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 90f3482..e724721 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -77,7 +77,9 @@ class GenericWrapper(object):
 
     def insert(self, index, child):
         """ Insert child at position `index`. """
-        self.xmlnode.insert(int(index), child.xmlnode)
+        # like lists: positions in front of the first child are the first one
+        index = max(int(index), -len(self.xmlnode))
+        self.xmlnode.insert(index, child.xmlnode)
         return child # pass through
 
     def get_child(self, index):
-- 
2.43.0


From ee29732077c674bdc5fb27f307e7f4563f975222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 65/72] fix: the wrapper cache kept all tables and pages and
 their documents in memory forever

---
 ezodf/pagecontainer.py | 17 ++++++++++++++---
 ezodf/wrapcache.py     |  5 ++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index 0625464..c6398f6 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -21,12 +21,23 @@ class AbstractPageContainer(object):
         self._childtag = childtag
         self._nametag = nametag
         self.xmlnode = xmlbody
+        # keeps expensive wrapper objects as long as the document exists
+        self._wrapped = {}
 
     def __len__(self):
         return len(self._xmlchildren())
 
     def __iter__(self):
-        return (wrapcache.wrap(child) for child in self._xmlchildren())
+        return (self._wrap(child) for child in self._xmlchildren())
+
+    def _wrap(self, xmlchild):
+        child = wrapcache.wrap(xmlchild)
+        if self._wrapped.get(id(xmlchild)) is not child:
+            # forget removed children
+            self._wrapped = dict((id(c.xmlnode), c) for c in self._wrapped.values()
+                                 if c.xmlnode.getparent() is self.xmlnode)
+            self._wrapped[id(xmlchild)] = child
+        return child
 
     def _xmlchildren(self):
         return self.xmlnode.findall(self._childtag)
@@ -72,12 +83,12 @@ class AbstractPageContainer(object):
     def _child_by_name(self, name):
         for child in self._xmlchildren():
             if name == child.get(self._nametag):
-                return wrapcache.wrap(child)
+                return self._wrap(child)
         raise KeyError("child '%s' not found." % name)
 
     def _child_by_index(self, index):
         sheets = list(self._xmlchildren())
-        return wrapcache.wrap(sheets[index])
+        return self._wrap(sheets[index])
 
     def append(self, child):
         if self._is_valid_child(child):
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index 982d437..2652fbd 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -7,11 +7,14 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import weakref
+
 from .xmlns import wrap as uncached_wrap
 
 class _WrapCache(object):
     # Should only used for big expensive objects like tables.
-    _cache = {}
+    # Does not keep objects (and so their documents) alive.
+    _cache = weakref.WeakValueDictionary()
 
     def wrap(self, element):
         key = id(element)
-- 
2.43.0


From cdac3216aa5e37e4cd869596a50dcb24367d950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:16 +0000
Subject: [PATCH 66/72] fix: insert missing sections of content.xml and
 styles.xml in the order the standard requires

---
 ezodf/content.py |  5 ++++-
 ezodf/styles.py  |  5 ++++-
 ezodf/xmlns.py   | 12 ++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/ezodf/content.py b/ezodf/content.py
index 17c9d31..102e3bf 100644
--- a/ezodf/content.py
+++ b/ezodf/content.py
@@ -8,13 +8,15 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .const import MIMETYPE_NSMAP
-from .xmlns import XMLMixin, subelement, CN, etree, register_class, wrap
+from .xmlns import XMLMixin, subelement, create_sections, CN, etree, register_class, wrap
 from .base import GenericWrapper
 
 from . import body # register body classes
 
 class OfficeDocumentContent(XMLMixin):
     TAG = CN('office:document-content')
+    SECTIONS = [CN('office:scripts'), CN('office:font-face-decls'),
+                CN('office:automatic-styles'), CN('office:body')]
 
     def __init__(self, mimetype, xmlnode=None):
 
@@ -28,6 +30,7 @@ class OfficeDocumentContent(XMLMixin):
 
     def _setup_references(self, mimetype):
         # these elements are common to all document types
+        create_sections(self.xmlnode, self.SECTIONS)
         # The element office:scripts always exists but is always empty
         self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
         self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
diff --git a/ezodf/styles.py b/ezodf/styles.py
index f178f8d..548b038 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .const import STYLES_NSMAP
-from .xmlns import XMLMixin, subelement, etree, CN, register_class, wrap
+from .xmlns import XMLMixin, subelement, create_sections, etree, CN, register_class, wrap
 from .base import GenericWrapper
 
 ## file 'styles.xml'
@@ -16,6 +16,8 @@ from .base import GenericWrapper
 @register_class
 class OfficeDocumentStyles(XMLMixin):
     TAG = CN('office:document-styles')
+    SECTIONS = [CN('office:font-face-decls'), CN('office:styles'),
+                CN('office:automatic-styles'), CN('office:master-styles')]
 
     def __init__(self, xmlnode=None):
         if xmlnode is None:
@@ -27,6 +29,7 @@ class OfficeDocumentStyles(XMLMixin):
         self._setup()
 
     def _setup(self):
+        create_sections(self.xmlnode, self.SECTIONS)
         self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
         self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
         self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index 5864723..4536b29 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -21,6 +21,18 @@ def subelement(parent, tag, new=True):
         element = etree.SubElement(parent, tag)
     return element
 
+def create_sections(parent, tags):
+    """ Create missing child elements of `parent` in the order of `tags`, which
+    is required by the standard.
+    """
+    position = 0
+    for tag in tags:
+        section = parent.find(tag)
+        if section is None:
+            section = etree.Element(tag)
+            parent.insert(position, section)
+        position = parent.index(section) + 1
+
 XML_ID = '{http://www.w3.org/XML/1998/namespace}id'
 
 def copy_element(element):
-- 
2.43.0


From bab7aab6433dc68e44402cbb3844580fd13930f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:31 +0000
Subject: [PATCH 67/72] fix: do not create empty settings in flat documents,
 they must not be empty

---
 ezodf/document.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 9c8d4ed..cd312d7 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -10,7 +10,7 @@ __author__ = "mozman <mozman@gmx.at>"
 import os
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
-from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
+from .xmlns import subelement, create_sections, CN, etree, wrap, ALL_NSMAP, fake_element
 from .filemanager import FileManager, save_via_tempfile
 from .bytestreammanager import ByteStreamManager
 from .meta import OfficeDocumentMeta
@@ -175,16 +175,12 @@ class FlatXMLDocument(_BaseDocument):
         if not has_meta: # the meta data section has to be the first one
             self.xmlnode.insert(0, self.meta.meta)
 
-        position = 0
-        # create missing sections in the order required by the standard
-        for tag in self.SECTIONS:
-            section = self.xmlnode.find(tag)
-            if section is None:
-                section = etree.Element(tag)
-                self.xmlnode.insert(position, section)
-            position = self.xmlnode.index(section) + 1
+        settings = self.xmlnode.find(CN('office:settings'))
+        # the settings must not be empty, do not create them in advance
+        create_sections(self.xmlnode, [tag for tag in self.SECTIONS if settings is not None
+                                       or tag != CN('office:settings')])
 
-        self.settings = wrap(self.xmlnode.find(CN('office:settings')))
+        self.settings = wrap(etree.Element(CN('office:settings')) if settings is None else settings)
         self.scripts = wrap(self.xmlnode.find(CN('office:scripts')))
         self.fonts = wrap(self.xmlnode.find(CN('office:font-face-decls')))
         self.styles = wrap(self.xmlnode.find(CN('office:styles')))
@@ -211,6 +207,9 @@ class FlatXMLDocument(_BaseDocument):
             fp.write(self.tobytes())
 
     def tobytes(self):
+        settings = self.settings.xmlnode
+        if len(settings) and settings.getparent() is None: # new settings
+            self.meta.meta.addnext(settings)
         return etree.tostring(self.xmlnode,
                               xml_declaration=True,
                               encoding='UTF-8')
-- 
2.43.0


From 090fcd62f2ce07629021f78040ed27bd91d00a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:38 +0000
Subject: [PATCH 68/72] fix: new elements changed their namespace in documents
 with prefixes like ns0

---
 ezodf/xmlns.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index 4536b29..8b47bc9 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -13,6 +13,11 @@ from lxml import etree
 
 from .const import ALL_NSMAP
 
+# the generated prefixes of new elements (ns0, ns1, ...) can collide with the
+# prefixes of the document they are appended to
+for prefix, uri in ALL_NSMAP.items():
+    etree.register_namespace(prefix, uri)
+
 def subelement(parent, tag, new=True):
     """ Find/create SubElement `tag` in parent node.
     """
-- 
2.43.0


From f938d09eddc522e34a97a65a5c5649f8d8475c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 69/72] fix: the formatted number has to be in front of the
 content

---
 ezodf/propertymixins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ezodf/propertymixins.py b/ezodf/propertymixins.py
index d31f566..b80ed9f 100644
--- a/ezodf/propertymixins.py
+++ b/ezodf/propertymixins.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr
-from .xmlns import CN, subelement, check_text
+from .xmlns import CN, etree, check_text
 
 
 def StringProperty(name, doc=None):
@@ -90,7 +90,13 @@ class TextNumberingMixin(object):
     def formatted_number(self, value):
         value = tostr(value)
         check_text(value)
-        formatted_number = subelement(self.xmlnode, CN('text:number'))
+        formatted_number = self.xmlnode.find(CN('text:number'))
+        if formatted_number is None:
+            # has to be located in front of the content
+            formatted_number = etree.Element(CN('text:number'))
+            formatted_number.tail = self.xmlnode.text
+            self.xmlnode.text = None
+            self.xmlnode.insert(0, formatted_number)
         formatted_number.text = value
 
 class TableVisibilityMixin(object):
-- 
2.43.0


From 75710421bde2b089a3cee612932f67f77c1f2e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:46 +0000
Subject: [PATCH 70/72] fix: the header style has to be in front of the footer
 style

---
 ezodf/styles.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 548b038..de318c9 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -145,7 +145,12 @@ class PageLayout(BaseStyle):
     }
     @property
     def header(self):
-        return self._properties(CN('style:header-style'), HeaderProperties)
+        header_tag = CN('style:header-style')
+        footer = self.xmlnode.find(CN('style:footer-style'))
+        if footer is not None and self.xmlnode.find(header_tag) is None:
+            # the header has to be located in front of the footer
+            footer.addprevious(etree.Element(header_tag))
+        return self._properties(header_tag, HeaderProperties)
 
     @property
     def footer(self):
-- 
2.43.0


From 08764f8086582f8795c699d6526d8ff07f78d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 71/72] fix: deleted rows and columns left empty groups and
 page breaks without a row

---
 ezodf/tablecolumncontroller.py |  4 ++--
 ezodf/tablerowcontroller.py    |  4 ++--
 ezodf/tableutils.py            | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index ba4a407..b5c82cd 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -11,7 +11,7 @@ from .xmlns import CN, etree, copy_element
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
 from .tableutils import is_table, get_table_columns, RepetitionAttribute
-from .tableutils import check_index_range
+from .tableutils import check_index_range, remove_from_group
 from .conf import config
 
 def new_empty_column():
@@ -163,5 +163,5 @@ class TableColumnController(object):
         index = check_index_range(index, count, len(self))
         for _ in range(count):
             column = self._columns[index]
-            column.getparent().remove(column)
+            remove_from_group(column)
             del self._columns[index]
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 4705425..1602d7e 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -12,7 +12,7 @@ from .xmlns import CN, etree, copy_element
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
 from .tableutils import get_table_rows, new_empty_cell, is_table
-from .tableutils import check_index_range, check_table_size
+from .tableutils import check_index_range, check_table_size, remove_from_group
 from .conf import config
 
 class TableCellAccessor(object):
@@ -126,7 +126,7 @@ class TableRowController(TableCellAccessor):
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
-            delete_row.getparent().remove(delete_row)
+            remove_from_group(delete_row)
 
     def append_columns(self, count=1):
         if count < 1:
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 0938a67..8b007a5 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -81,6 +81,22 @@ def get_table_rows(xmltable):
 def get_table_columns(xmltable):
     return _find_in_groups(xmltable, CN('table:table-column'), TABLE_COLUMNS)
 
+def remove_from_group(element):
+    """ Remove the row or column `element`, groups which get empty and page
+    breaks without a following row, because both are not valid.
+    """
+    group = element.getparent()
+    prev = next(element.itersiblings(etree.Element, preceding=True), None)
+    succ = next(element.itersiblings(etree.Element), None)
+    group.remove(element)
+    if prev is not None and prev.tag == CN('text:soft-page-break'):
+        if succ is None or succ.tag != CN('table:table-row'):
+            group.remove(prev)
+    if not is_table(group) and group.find('*') is None:
+        for comment in list(group):
+            group.addprevious(comment)
+        remove_from_group(group)
+
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
 
-- 
2.43.0


From a54661d0c284b9d4375b502c2197739a0debe019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:40 +0000
Subject: [PATCH 72/72] fix: variables kept the currency when they got a value
 of another type

---
 ezodf/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index aeb49e5..bcdc509 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -60,6 +60,8 @@ def set_value_attribute(xmlnode, value_type, string):
     for name in VALUE_ATTRIBUTES.values():
         if name != attribute and name in xmlnode.attrib:
             del xmlnode.attrib[name]
+    if value_type != 'currency':
+        xmlnode.attrib.pop(CN('office:currency'), None)
 
 def get_value_attribute(xmlnode, value_type):
     try:
-- 
2.43.0

