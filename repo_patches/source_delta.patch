From 16a0cfcbda7d846634319e634320d278db156c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 01/28] fix: Changes.add() kept a wrong start when a change was
 made before an earlier one

---
 parce/treebuilderutil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..c42b42f 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -95,9 +95,8 @@ class Changes:
         else:
             offset = 0
         # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
         end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        offset -= max(0, end - max(start, self.start))
         # set the new values
         self.start = min(self.start, start)
         self.removed += removed + offset
-- 
2.43.0


From 4f7e625e3066f097e079a74077d43f93869b053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:49 +0000
Subject: [PATCH 02/28] fix: CssTransform failed on every quoted string

---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..faa606e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From 4460c6d04df901858302b4e2216a5789f063659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:52 +0000
Subject: [PATCH 03/28] fix: a plain @import rule in a stylesheet raised a
 NameError

---
 parce/css.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index faa606e..c4aa40a 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -223,6 +223,7 @@ class StyleSheet:
 
         """
         filenames = {filename}
+        imported_filenames = []
 
         def get_import_rules(values):
             """Yield rules from an @import at-rule.
@@ -232,7 +233,7 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
                     fname = os.path.join(os.path.dirname(filename), fname)
                     # avoid circular @import references
@@ -245,7 +246,7 @@ class StyleSheet:
                             s = cls.from_css(icss, fname, path, allow_import)
                             yield Condition("import", values, s)
                         else:
-                            self._imported_filenames.append(fname)
+                            imported_filenames.append(fname)
                             yield from get_rules(icss)
                     return
 
@@ -272,7 +273,9 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        sheet = cls(get_rules(css), filename)
+        sheet._imported_filenames.extend(imported_filenames)
+        return sheet
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From eb8e7c81364a8d2fd92ddf2e52cb295136201ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:54 +0000
Subject: [PATCH 04/28] fix: rgb() and rgba() colors dropped arguments that are
 zero

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index c4aa40a..39a2e7b 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1282,7 +1282,7 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
         if r != -1: r = self.get_number_value(r, 255)
         g = next(values, -1)
-- 
2.43.0


From f4f890a298fff5a77ab2f7377be5aa4ddbfb7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:56 +0000
Subject: [PATCH 05/28] fix: AbstractElement.get_child_count() could not be
 called on an instance

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 39a2e7b..696b2d0 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -488,7 +488,7 @@ class AbstractElement:
         """Implement to yield our children."""
         yield from ()
 
-    def get_child_count():
+    def get_child_count(self):
         """Implement to return the number of children."""
         return 0
 
-- 
2.43.0


From cd723d249380a81a1994a6c2a1753b34de20e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 06/28] fix: selecting rules for a lxml element failed

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 696b2d0..8651904 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -386,7 +386,6 @@ class Style:
             if element.match(rule.prelude):
                 yield rule
 
-    @style_query
     def select_lxml_element(self, element):
         """Select the rules that match with lxml.etree.Element."""
         return self.select_element(LxmlElement(element))
@@ -749,7 +748,8 @@ class LxmlElement(AbstractElement):
 
     def get_parent(self):
         """Return the parent Element or None."""
-        return type(self)(self.e.getparent())
+        parent = self.e.getparent()
+        return None if parent is None else type(self)(parent)
 
     def get_attributes(self):
         """Return a dictionary of attributes, keys and values are str."""
-- 
2.43.0


From 91ed68483a15e56a99ca82db5d13e14fdc56d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 07/28] fix: merge_adjacent() failed with the default tuple
 factory

---
 parce/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..5eae253 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -682,6 +682,8 @@ def merge_adjacent(stream, factory=tuple):
     or any other type to wrap the streams items in.
 
     """
+    if factory is tuple:
+        factory = lambda *items: items
     stream = iter(stream)
     for pos, end, *rest in stream:
         for npos, nend, *nrest in stream:
-- 
2.43.0


From 07c591ac459d423353295fd41c5d035f6686e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 08/28] fix: overlapping edits made all later edits of a
 document fail

---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..2e163fc 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From 27f4f9550d4c7e2166739ef40f8db8d9a6b1863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:04 +0000
Subject: [PATCH 09/28] fix: invalidating a node without a cached transform
 raised a KeyError

---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..be9d4de 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -397,7 +397,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From 874f0b83dcad4946c8a61041e33bcf0bb4607579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 10/28] fix: cursors got wrong positions after multiple changes
 in one edit context

---
 parce/document.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..5adc2bb 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,12 +81,13 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
+        offset = 0  # the change positions refer to the original text
+        cursors = list(self._cursors)
         for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
+            start += offset
+            end += offset
+            for c in cursors:
+                if c.pos > start:
                     if end >= c.pos:
                         c.pos = start
                     else:
@@ -96,8 +97,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
                         c.end = start + len(text)
                     else:
                         c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
+            offset += start + len(text) - end
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From f633369546e31cfd3706c389b5c167eec40ca2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:07 +0000
Subject: [PATCH 11/28] fix: UTF-32 LE encoded data was mistaken for UTF-16 LE

---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 5eae253..3502996 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -726,10 +726,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
+        (codecs.BOM_UTF32_LE, 'utf_32_le'),  # starts with the UTF-16 LE mark
+        (codecs.BOM_UTF32_BE, 'utf_32_be'),
         (codecs.BOM_UTF16_LE, 'utf_16_le'),
         (codecs.BOM_UTF16_BE, 'utf_16_be'),
-        (codecs.BOM_UTF32_LE, 'utf_32_le'),
-        (codecs.BOM_UTF32_BE, 'utf_32_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From f8887eb00b7583a584b9aef171af3eae420aab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:27 +0000
Subject: [PATCH 12/28] fix: a callback connected once could be called again by
 a nested emit

---
 parce/util.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3502996..8e6ab7c 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -378,20 +378,21 @@ class Observable:
             slots = self._callbacks[event]
         except KeyError:
             return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        for observer in tuple(slots):
+            if observer not in slots:
+                continue    # disconnected by another callback
+            if observer.once:
+                # remove before calling, the callback may emit the event again
+                slots.remove(observer)
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
-            if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+            if observer.once and observer in slots:
+                slots.remove(observer)
+        if not slots and self._callbacks.get(event) is slots:
+            del self._callbacks[event]
         return s
 
 
-- 
2.43.0


From 896e0b196d2f4463f3d382030f004e415981434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:29 +0000
Subject: [PATCH 13/28] fix: object_locker() dropped a lock other threads were
 still waiting for

---
 parce/util.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 8e6ab7c..4195989 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -496,20 +496,22 @@ def object_locker():
     locker = {}
     locker_lock = threading.Lock()
 
+    @contextlib.contextmanager
     def lock_object(obj):
         with locker_lock:
             try:
-                return locker[obj]
+                entry = locker[obj]
             except KeyError:
-                lock = locker[obj] = threading.Lock()
-                @contextlib.contextmanager
-                def cleanup():
-                    try:
-                        with lock:
-                            yield
-                    finally:
-                        del locker[obj]
-                return cleanup()
+                entry = locker[obj] = [threading.Lock(), 0]
+            entry[1] += 1   # the number of threads holding or awaiting the lock
+        try:
+            with entry[0]:
+                yield
+        finally:
+            with locker_lock:
+                entry[1] -= 1
+                if not entry[1]:
+                    del locker[obj]
     return lock_object
 
 
-- 
2.43.0


From 6f5f64ad7413bb24cb278affbe2f1620c1681900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 14/28] fix: a range between two tokens yielded unrelated
 tokens

---
 parce/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..9800164 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -1004,6 +1004,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # no tokens between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From 4df40d04ede3b85a21e84dfb57e5b078aad6f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:33 +0000
Subject: [PATCH 15/28] fix: the indent of lines containing only whitespace was
 not recognized

---
 parce/indent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..2ffac37 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,7 +302,7 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text)-len(text.lstrip())]
             else:
                 info.indent == ""
         return info
-- 
2.43.0


From 7c6376221e6489d1602778e3021dc607178dd21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:34 +0000
Subject: [PATCH 16/28] fix: the current indent was left None for lines that
 may not be indented

---
 parce/indent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/indent.py b/parce/indent.py
index 2ffac37..8516f6b 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -304,7 +304,7 @@ class AbstractIndenter:
                 text = block.text()
                 info.indent = text[:len(text)-len(text.lstrip())]
             else:
-                info.indent == ""
+                info.indent = ""
         return info
 
     def indent_events(self, block, prev_indents=()):
-- 
2.43.0


From 13781d3665d7d65f608c8565024815c7e77169e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:33 +0000
Subject: [PATCH 17/28] fix: after a failed build the tree was never updated
 again

---
 parce/treebuilder.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..f0abc78 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -556,18 +556,30 @@ class TreeBuilder(util.Observable):
         You should exhaust the generator fully.
 
         """
-        self.process_started()
+        try:
+            self.process_started()
+        except BaseException:
+            self.busy = False
+            raise
         start = end = -1
         lexicons = False    # no change
         self._lock.acquire()
         c = self.get_changes()
         while c and c.has_changes():
             self._lock.release()
-            yield "build"
-            result = self.build_new_tree(c.text, c.root_lexicon, c.start, c.removed, c.added)
-            yield "replace"
-            self.emit("replace")
-            r = self.replace_tree(result)
+            try:
+                yield "build"
+                result = self.build_new_tree(c.text, c.root_lexicon, c.start, c.removed, c.added)
+                yield "replace"
+                self.emit("replace")
+                r = self.replace_tree(result)
+            except BaseException:
+                # the tree does not reflect the text, build it fully next time
+                lexicon = self.root.lexicon if c.root_lexicon is False else c.root_lexicon
+                with self._lock:
+                    self.changes.insert(0, (c.text, lexicon, 0, 0, len(c.text)))
+                    self.busy = False
+                raise
             start = r.start if start == -1 else min (start, r.start)
             end = r.end if end == -1 else max(c.new_position(end), r.end)
             if r.lexicons is not None:
-- 
2.43.0


From 780287f3e9a19b22e33da7fa07148e6944f5b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:35 +0000
Subject: [PATCH 18/28] fix: a Worker process that ends late marked a newer
 process as finished

---
 parce/work.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index cb2be97..1e99b69 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -99,6 +99,7 @@ class Worker(util.Observable):
         self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._job = 0       # identifies the process that was started last
 
         treebuilder.connect("invalidate", self.slot_invalidate)
         treebuilder.connect("replace", self.slot_replace)
@@ -151,6 +152,7 @@ class Worker(util.Observable):
 
         """
         with self._condition:
+            self._job += 1
             self._tree_state = BUILD
             if self._transformer and self._transform_state == IDLE:
                 self._transform_state = BUILD
@@ -172,20 +174,27 @@ class Worker(util.Observable):
     def process(self):
         """Generator performing the actual process, exhausted by :meth:`run_process`."""
         c = self._condition
+        job = self._job     # don't alter the state if a newer process is busy
 
         try:
             ## run the treebuilder
-            self.start_build()
+            try:
+                self.start_build()
+            except BaseException:
+                self._builder.busy = False
+                raise
             for stage in self._builder.process():
                 yield "tree_" + stage
                 state = _STATES.get(stage)
                 if state:
                     with c:
-                        self._tree_state = state
+                        if job == self._job:
+                            self._tree_state = state
             self.finish_build()
             with c:
-                self._tree_state = IDLE
-                c.notify_all()
+                if job == self._job:
+                    self._tree_state = IDLE
+                    c.notify_all()
 
             ## run the transformer
             self._transform_lock.acquire()
@@ -198,7 +207,8 @@ class Worker(util.Observable):
                         state = _STATES.get(stage)
                         if state is not None:
                             with c:
-                                self._transform_state = state
+                                if job == self._job:
+                                    self._transform_state = state
                     self._transform_lock.acquire()
                     # if the transformer was replaced while running, start again
                     t, old = self._transformer, t
@@ -209,9 +219,10 @@ class Worker(util.Observable):
 
         finally:
             with c:
-                self._tree_state = IDLE
-                self._transform_state = IDLE
-                c.notify_all()
+                if job == self._job:
+                    self._tree_state = IDLE
+                    self._transform_state = IDLE
+                    c.notify_all()
 
     def wait_build(self):
         """Wait for the build job to be completed.
-- 
2.43.0


From 17c8e40c4f5e1b5fca283ee7c871f19122453d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:06 +0000
Subject: [PATCH 19/28] fix: setting a Transformer during a build started a
 second build process

---
 parce/work.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 1e99b69..1c750f3 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -122,7 +122,9 @@ class Worker(util.Observable):
             with self._transform_lock:
                 self._transformer = transformer
                 with self._condition:
-                    start = self._transform_state & REPLACE == 0
+                    start = (self._tree_state | self._transform_state) & REPLACE == 0
+                    if transformer and not start and self._transform_state == IDLE:
+                        self._transform_state = BUILD   # will run after the build
             if start:
                 self.start()
 
-- 
2.43.0


From c8591205be08ca848aa4b5779578c553f31bf722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:48 +0000
Subject: [PATCH 20/28] fix: lexing never ended when a target could not be
 followed in the root lexicon or at the end of the text

---
 parce/lexer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..072c391 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,9 +156,17 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
+                        elif not target.push:
+                            # nowhere to go (root can't be left)
+                            if pos >= len(text):
+                                return
+                            pos += 1
+                            break
                         state = (pos, len(lexicons), len(target.push))
                         if state in circular:
-                            if target.push and pos < len(text):
+                            if target.push:
+                                if pos >= len(text):
+                                    return
                                 pos += 1
                             circular.clear()
                         else:
-- 
2.43.0


From c8b4beb6ec5d5b4de1b19126cf0a26fee6059c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:13 +0000
Subject: [PATCH 21/28] fix: transform_text left one lexicon too much after an
 untransformed context

The remaining number of lexicons to leave did not count the untransformed
lexicon itself, so that the parent was left as well (or an IndexError raised).
---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index be9d4de..7767099 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -229,7 +229,7 @@ class Transformer(util.Observable):
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
-- 
2.43.0


From acfb66ddfa7ea02658e8959db3018326fcab2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:13 +0000
Subject: [PATCH 22/28] fix: transform_text raised IndexError if the text ends
 in an untransformed lexicon

There is no event left then, and no tokens to make.
---
 parce/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 7767099..8ea90fe 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -288,7 +288,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From 1f2f1ef97fa9504b29954f297b053b30dc24f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:13 +0000
Subject: [PATCH 23/28] fix: transform_text lost the first tokens of an
 untransformed context

The tokens in the event that enters the context were not added to its tree.
---
 parce/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 8ea90fe..980192b 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,7 +214,7 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
             Returns the tree and the next event (if any), with adapted pop
@@ -225,6 +225,7 @@ class Transformer(util.Observable):
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
@@ -280,7 +281,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
-- 
2.43.0


From 4241d16198b084312dd26d78bf13dc16048282eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:53 +0000
Subject: [PATCH 24/28] fix: a theme property with a comma, slash or
 !important, or without a value, raised an exception

---
 parce/theme.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..1bc9a3b 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,7 +257,10 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            self._dispatch(prop, values)
+            # leave out the delimiters (like ",") and keywords (like "!important")
+            values = [v for v in values if isinstance(v, css.Value)]
+            if values:
+                self._dispatch(prop, values)
 
     def __bool__(self):
         """Return True if at least one property is set."""
-- 
2.43.0


From 053023f871b28606b9a29f02f48d65f1ef7f432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:08 +0000
Subject: [PATCH 25/28] fix: the base format was inserted unescaped in the
 style attribute by full_html()

---
 parce/out/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index 8cf5993..ae183e1 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -82,7 +82,7 @@ class HtmlMixin:
         """
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
-            baseformat = self.baseformat() or "",
+            baseformat = attrescape(self.baseformat() or ""),
             html = self.html(cursor))
 
 
-- 
2.43.0


From 97ea95dcb5b6f0e419b2525df5b13df4d0911281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:19 +0000
Subject: [PATCH 26/28] fix: formatting a part of the text with more than one
 theme formatted other parts again

---
 parce/formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..5c4d5a5 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -202,7 +202,7 @@ class AbstractFormatter:
 
                 for context, slice_ in r.slices():
                     check_lang(context.lexicon.language)
-                    n = context[slice_]
+                    n = nodes = context[slice_]
                     stack = []
                     i = 0
                     while True:
@@ -220,6 +220,8 @@ class AbstractFormatter:
                                 n = n.parent
                                 check_lang(n.lexicon.language)
                                 i = stack.pop() + 1
+                                if not stack:
+                                    n = nodes   # only this slice of the context
                             else:
                                 break
 
-- 
2.43.0


From 918c6cc19e106a993a27598b7c006073487a9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:56 +0000
Subject: [PATCH 27/28] fix: keep the last unchanged tokens when a tree build
 is restarted

When a change arrives while a new tree is being built, the tree that is being
built is cut off after the last tokens that are still valid, and lexing
continues after these tokens. But the first of these tokens was removed as
well, so it was missing from the tree.
---
 parce/treebuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index f0abc78..979ba5d 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,10 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From ffac5ee097ebb30ac03b35f585700dc4d5b4b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:34 +0000
Subject: [PATCH 28/28] fix: a single pattern in a lexicon with re.VERBOSE was
 searched literally, with its whitespace

---
 parce/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..c0445b3 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
-- 
2.43.0

