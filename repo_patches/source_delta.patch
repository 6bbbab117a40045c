From 8c1b780d07d54c55f8f4b3ddfd49a5a5550b582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:49 +0000
Subject: [PATCH 01/10] fix: error messages are truncated silently when an
 allocation fails

The formatted output functions of std::ostringstream swallow the std::bad_alloc
thrown while the buffer grows and only set badbit, so get_value() of
index_out_of_range and unpaired returned a prefix of the message.
---
 include/boost/metaparse/v1/error/index_out_of_range.hpp | 3 +++
 include/boost/metaparse/v1/error/unpaired.hpp           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/boost/metaparse/v1/error/index_out_of_range.hpp b/include/boost/metaparse/v1/error/index_out_of_range.hpp
index de87968..dceef3d 100644
--- a/include/boost/metaparse/v1/error/index_out_of_range.hpp
+++ b/include/boost/metaparse/v1/error/index_out_of_range.hpp
@@ -26,6 +26,9 @@ namespace boost
           static std::string get_value()
           {
             std::ostringstream s;
+            // an allocation failing in the stream has to be reported, not to
+            // truncate the message silently
+            s.exceptions(std::ios_base::badbit);
             s
               << "index (" << N << ") out of range ["
               << From << "-" << To << "]";
diff --git a/include/boost/metaparse/v1/error/unpaired.hpp b/include/boost/metaparse/v1/error/unpaired.hpp
index 71e8561..9f466eb 100644
--- a/include/boost/metaparse/v1/error/unpaired.hpp
+++ b/include/boost/metaparse/v1/error/unpaired.hpp
@@ -28,6 +28,9 @@ namespace boost
           static std::string get_value()
           {
             std::ostringstream s;
+            // an allocation failing in the stream has to be reported, not to
+            // truncate the message silently
+            s.exceptions(std::ios_base::badbit);
             s << Msg::get_value() << " (see " << Line << ":" << Col << ")";
             return s.str();
           }
-- 
2.43.0


From 0fced11be44fabda0535e60304b799574532e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:49 +0000
Subject: [PATCH 02/10] fix: the numbers in error messages depend on the global
 locale

std::ostringstream takes the global locale, so with a grouping locale
index_out_of_range and unpaired gave "index (12,345) ..." and "(see 1,000:5)",
and the text of one error changed when another thread set the locale.
---
 include/boost/metaparse/v1/error/index_out_of_range.hpp | 3 +++
 include/boost/metaparse/v1/error/unpaired.hpp           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/boost/metaparse/v1/error/index_out_of_range.hpp b/include/boost/metaparse/v1/error/index_out_of_range.hpp
index dceef3d..799d52e 100644
--- a/include/boost/metaparse/v1/error/index_out_of_range.hpp
+++ b/include/boost/metaparse/v1/error/index_out_of_range.hpp
@@ -7,6 +7,7 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #include <iostream>
+#include <locale>
 #include <string>
 #include <sstream>
 
@@ -29,6 +30,8 @@ namespace boost
             // an allocation failing in the stream has to be reported, not to
             // truncate the message silently
             s.exceptions(std::ios_base::badbit);
+            // the message should not depend on the global locale
+            s.imbue(std::locale::classic());
             s
               << "index (" << N << ") out of range ["
               << From << "-" << To << "]";
diff --git a/include/boost/metaparse/v1/error/unpaired.hpp b/include/boost/metaparse/v1/error/unpaired.hpp
index 9f466eb..618089b 100644
--- a/include/boost/metaparse/v1/error/unpaired.hpp
+++ b/include/boost/metaparse/v1/error/unpaired.hpp
@@ -9,6 +9,7 @@
 #include <boost/mpl/vector.hpp>
 
 #include <iostream>
+#include <locale>
 #include <string>
 #include <sstream>
 
@@ -31,6 +32,8 @@ namespace boost
             // an allocation failing in the stream has to be reported, not to
             // truncate the message silently
             s.exceptions(std::ios_base::badbit);
+            // the message should not depend on the global locale
+            s.imbue(std::locale::classic());
             s << Msg::get_value() << " (see " << Line << ":" << Col << ")";
             return s.str();
           }
-- 
2.43.0


From 3f2e94bb9d49ec30b044602bc53eafd3d4697d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:43 +0000
Subject: [PATCH 03/10] fix: updating the dependencies loses the pins when it
 fails or is interrupted

The dependency file was opened for writing (and thus truncated) before the
heads of the modules were fetched and was written in place. A failing git
command, a full disk or an interrupt left an empty or partial file behind.
Collect the new pins first, write them to a temporary file and rename that.
---
 tools/build_environment.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/tools/build_environment.py b/tools/build_environment.py
index b104fb3..56c63ed 100755
--- a/tools/build_environment.py
+++ b/tools/build_environment.py
@@ -16,6 +16,17 @@ def load_json(filename):
         return json.load(f)
 
 
+def replace_file(filename, content):
+    """Replace the content of the file. It has its old content until all of
+    the new one has been written."""
+    tmp = filename + '.tmp'
+    with open(tmp, 'w') as f:
+        f.write(content)
+    if os.name == 'nt' and os.path.exists(filename):
+        os.remove(filename)
+    os.rename(tmp, filename)
+
+
 class ChildProcess:
     def __init__(self, cmd, cwd = os.getcwd()):
         self.cmd = cmd
@@ -62,15 +73,14 @@ def build_environment(submodules_file, out_dir, git, repo, action, ref):
     )
     git_in_boost.run(['submodule', 'update'])
     if action == 'update':
-        with open(submodules_file, 'w') as f:
-            f.write(json.dumps(
-                dict([
-                    (k, head_of_master(k, git_in_boost.in_subdir(k), ref))
-                    for k, v in submodules.iteritems()
-                ]),
-                sort_keys=True,
-                indent=2
-            ))
+        heads = dict([
+            (k, head_of_master(k, git_in_boost.in_subdir(k), ref))
+            for k, v in submodules.iteritems()
+        ])
+        replace_file(
+            submodules_file,
+            json.dumps(heads, sort_keys=True, indent=2)
+        )
     elif action == 'checkout':
         for name, commit in submodules.iteritems():
             git_in_boost.in_subdir(name).run(['checkout', commit])
-- 
2.43.0


From cdcc5e355c6b182a19a4fd9bf119d53cacbbb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:43 +0000
Subject: [PATCH 04/10] fix: string_headers.py leaves a partial header behind
 when it fails or is interrupted

The header was written in place. The scope guards even closed the include
guard of a header the generation of which had failed. Write the new header
into a temporary file and rename that when it is complete.
---
 tools/string_headers.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index 43ef052..c7716bb 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -7,6 +7,7 @@
 #          http://www.boost.org/LICENSE_1_0.txt)
 
 import argparse
+import contextlib
 import math
 import os
 import sys
@@ -124,6 +125,23 @@ def filename(out_dir, name, undefine=False):
     return os.path.join(out_dir, '{0}{1}.hpp'.format(prefix, name.lower()))
 
 
+@contextlib.contextmanager
+def replace_file(path):
+    """Open the file for replacing its content. It has its old content until
+    all of the new one has been written."""
+    tmp = path + '.tmp'
+    try:
+        with open(tmp, 'wb') as out_f:
+            yield out_f
+        if os.name == 'nt' and os.path.exists(path):
+            os.remove(path)
+        os.rename(tmp, path)
+    except:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
+
+
 def length_limits(max_length_limit, length_limit_step):
     """Generates the length limits"""
     string_len = len(str(max_length_limit))
@@ -203,7 +221,7 @@ def generate_string(out_dir, limits):
     """Generate string.hpp"""
     max_limit = max((int(v) for v in limits))
 
-    with open(filename(out_dir, 'string'), 'wb') as out_f:
+    with replace_file(filename(out_dir, 'string')) as out_f:
         with IncludeGuard(out_f):
             out_f.write(
                 '\n'
-- 
2.43.0


From 8e8e8869b8bc9d90c209f3c60404daa3c70cc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:43 +0000
Subject: [PATCH 05/10] fix: string_headers.py does not support the requested
 maximum for some steps

With --max_length_limit 9 --length_limit_step 8 the largest generated limit was
8, and with --max_length_limit 1 --length_limit_step 1 there was none at all
(and the generator failed). The last limit has to be the first multiple of the
step that is not less than the maximum.
---
 tools/string_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index c7716bb..a60b2cd 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -149,7 +149,7 @@ def length_limits(max_length_limit, length_limit_step):
         str(i).zfill(string_len) for i in
         xrange(
             length_limit_step,
-            max_length_limit + length_limit_step - 1,
+            max_length_limit + length_limit_step,
             length_limit_step
         )
     ]
-- 
2.43.0


From 148ac5a249837373ea5586ebc9b0b70b7cb9e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:43 +0000
Subject: [PATCH 06/10] fix: generate_all.py loses the guide when it fails or
 is interrupted

The hand-written source of the guide was overwritten in place: a full disk or
an interrupt while writing it left an empty or truncated guide behind. Write the
files into temporary ones and rename those when they are complete.
---
 tools/generate_all.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/generate_all.py b/tools/generate_all.py
index 66a5267..66c95bd 100755
--- a/tools/generate_all.py
+++ b/tools/generate_all.py
@@ -246,8 +246,13 @@ def extract_code_snippets(qbk, fn_base):
   return (files, result)
 
 def write_file(fn, content):
-  with open(fn, 'w') as f:
+  # fn has its old content until all of the new one has been written
+  tmp = fn + '.tmp'
+  with open(tmp, 'w') as f:
     f.write(content)
+  if os.name == 'nt' and os.path.exists(fn):
+    os.remove(fn)
+  os.rename(tmp, fn)
 
 def write_files(files):
   for fn in files:
-- 
2.43.0


From bd5d1416a567e056e011177260b9b4fac884279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 07/10] fix: running generate_all.py again changes the guide it
 has just generated

When several empty lines follow a code example, the first run kept them after
the link to the copy-paste friendly version and the second run dropped them.
When the last line of the guide has no newline, a link or note was appended to
that line, and the second run dropped the line with it.
---
 tools/generate_all.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/generate_all.py b/tools/generate_all.py
index 66c95bd..fc900e1 100755
--- a/tools/generate_all.py
+++ b/tools/generate_all.py
@@ -234,6 +234,9 @@ def extract_code_snippets(qbk, fn_base):
                 '[link {0} copy-paste friendly version]\n'.format(basename_f)
               )
               result.append('\n')
+              # running the script again drops the link and the empty lines
+              # following it
+              skip_empty_lines = True
               counter = counter + 1
           elif \
               l.startswith(code_prefix + '> ') \
@@ -277,6 +280,8 @@ def main():
   args = parser.parse_args()
 
   qbk = open(args.src, 'r').readlines()
+  if qbk and not qbk[-1].endswith('\n'):
+    qbk[-1] = qbk[-1] + '\n'
 
   delete_old_headers(args.dst)
   doc_dir = os.path.dirname(args.src)
-- 
2.43.0


From bafdcbbb3303fee36d6af434bfa19c895530a674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 08/10] fix: updates running at the same time destroyed each
 other's dependency file

They wrote the new pins to the same temporary file.
---
 tools/build_environment.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/build_environment.py b/tools/build_environment.py
index 56c63ed..52b92c8 100755
--- a/tools/build_environment.py
+++ b/tools/build_environment.py
@@ -19,12 +19,17 @@ def load_json(filename):
 def replace_file(filename, content):
     """Replace the content of the file. It has its old content until all of
     the new one has been written."""
-    tmp = filename + '.tmp'
-    with open(tmp, 'w') as f:
-        f.write(content)
-    if os.name == 'nt' and os.path.exists(filename):
-        os.remove(filename)
-    os.rename(tmp, filename)
+    tmp = '{0}.{1}.tmp'.format(filename, os.getpid())
+    try:
+        with open(tmp, 'w') as f:
+            f.write(content)
+        if os.name == 'nt' and os.path.exists(filename):
+            os.remove(filename)
+        os.rename(tmp, filename)
+    except:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
 
 
 class ChildProcess:
-- 
2.43.0


From d86d799a030b8a4cd2ad9c9c7323e89fe122622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 09/10] fix: generators running at the same time put torn
 string headers in place

They wrote the new header to the same temporary file.
---
 tools/string_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index a60b2cd..5ac4b40 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -129,7 +129,7 @@ def filename(out_dir, name, undefine=False):
 def replace_file(path):
     """Open the file for replacing its content. It has its old content until
     all of the new one has been written."""
-    tmp = path + '.tmp'
+    tmp = '{0}.{1}.tmp'.format(path, os.getpid())
     try:
         with open(tmp, 'wb') as out_f:
             yield out_f
-- 
2.43.0


From 967f1e7398c7938a46dfdc37b814353f117f2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 10/10] fix: tutorial generators running at the same time could
 lose the guide

They wrote the new text to the same temporary file.
---
 tools/generate_all.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/generate_all.py b/tools/generate_all.py
index fc900e1..09a7ea6 100755
--- a/tools/generate_all.py
+++ b/tools/generate_all.py
@@ -250,12 +250,17 @@ def extract_code_snippets(qbk, fn_base):
 
 def write_file(fn, content):
   # fn has its old content until all of the new one has been written
-  tmp = fn + '.tmp'
-  with open(tmp, 'w') as f:
-    f.write(content)
-  if os.name == 'nt' and os.path.exists(fn):
-    os.remove(fn)
-  os.rename(tmp, fn)
+  tmp = '{0}.{1}.tmp'.format(fn, os.getpid())
+  try:
+    with open(tmp, 'w') as f:
+      f.write(content)
+    if os.name == 'nt' and os.path.exists(fn):
+      os.remove(fn)
+    os.rename(tmp, fn)
+  except:
+    if os.path.exists(tmp):
+      os.remove(tmp)
+    raise
 
 def write_files(files):
   for fn in files:
-- 
2.43.0

