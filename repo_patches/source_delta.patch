From ab5b3ab9f3960dab37323108a2b5e8c7a19ffadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 01/42] fix: undefined optional attributes can have a weak
 access mode

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..aca657e 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -630,7 +630,7 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if 'weak' in attrs[k]['access'] and guess[k] is not UNKNOWN:
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
-- 
2.43.0


From eebcb471e20c4fa5d96994af1a3b545dbe80c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 02/42] fix: None can be assigned to a weak attribute

---
 src/footprints/access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..382259a 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -54,7 +54,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and value is not None:
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
-- 
2.43.0


From d9e0c9bedda8c848fa597c6c571c850f7feb0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 03/42] fix: a shallow copy has its own attributes storage

---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index aca657e..e99d67c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -934,6 +934,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        self._attributes = dict(self._attributes)
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From a46bb5842963f0a2cc471ef1742f1b4e7439dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 04/42] fix: undefined attributes remain undefined when
 unpickled

---
 src/footprints/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e99d67c..4622d2d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -934,7 +934,9 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
-        self._attributes = dict(self._attributes)
+        # The UNKNOWN marker is recognised by its identity (that is lost by pickle)
+        self._attributes = {k: UNKNOWN if type(v) is str and v == UNKNOWN else v
+                            for k, v in self._attributes.items()}
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From 730fbd1b6bc6412a5aef9c012a879b982d108cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 05/42] fix: deleting an attribute only affects the object
 itself

---
 src/footprints/access.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/footprints/access.py b/src/footprints/access.py
index 382259a..b338c52 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Deleted attribute [' + self._attr + ']')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -59,8 +64,9 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
     def __delete__(self, instance):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Deleted attribute [' + self._attr + ']')
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From 0cc136b96fc86cfb6b8648cc8c910e0d30c0f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 06/42] fix: default does not stumble on objects with a deleted
 attribute

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 4622d2d..a605553 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1085,7 +1085,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if k not in self._attributes or self._attributes[k] != resolved[k]:
                     rc = False
                     break
         return rc
-- 
2.43.0


From fa3d3a1d000a847dffc7de08f082c7826be4b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 07/42] fix: objects with weak attributes can be cloned

---
 src/footprints/__init__.py   | 3 ++-
 src/footprints/access.py     | 2 +-
 src/footprints/collectors.py | 7 ++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index a605553..86eb1a5 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -630,7 +630,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access'] and guess[k] is not UNKNOWN:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index b338c52..151fbdb 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -59,7 +59,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak and value is not None:
+            if weak and value is not None and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..ff7f822 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -516,6 +516,7 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
-        if obj not in self._shallow_cache:
-            self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
-        return self._shallow_cache[obj]
+        # The object may not be hashable (weak proxies): keep it alive and rely on its id
+        if id(obj) not in self._shallow_cache:
+            self._shallow_cache[id(obj)] = (obj, obj.footprint_as_shallow_dict())
+        return self._shallow_cache[id(obj)][1]
-- 
2.43.0


From ddf6fd63e8b0dca24d35d4bb8f7e7273c3a771af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 08/42] fix: unhashable values and cyclic remaps do not break
 the resolution

---
 src/footprints/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 86eb1a5..5d60dea 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -522,11 +522,20 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if self._hashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
 
+    @staticmethod
+    def _hashable(item):
+        """Check that item can actually be hashed (a tuple may contain a list...)."""
+        try:
+            hash(item)
+        except TypeError:
+            return False
+        return True
+
     def resolve(self, desc, **kw):
         """Try to guess how the given description ``desc`` could possibly match the current footprint."""
         opts = dict(fatal=setup.fatal, fast=setup.fastmode)
@@ -574,8 +583,10 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            remapped = list()
+            while guess[k] not in remapped and self._hashable(guess[k]) and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                remapped.append(guess[k])
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
-- 
2.43.0


From 2bff92f89f21672f8f41b7ac42b35bd770b5904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 09/42] fix: an object that is not a class is properly refused
 by isclass attributes

---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 5d60dea..b6a99a8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -592,7 +592,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 151fbdb..5b20ef1 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -41,7 +41,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             fpdef = fp.attr[self._attr]
             atype = fpdef.get('type', str)
             if fpdef.get('isclass', False):
-                if not issubclass(value, atype):
+                if not (isinstance(value, type) and issubclass(value, atype)):
                     raise ValueError('Attempt to set {:s} as a non compatible subclass {!s}'
                                      .format(self._attr, value))
             elif not isinstance(value, atype) and value is not None:
-- 
2.43.0


From 148d807335d1a231ad72b9a5ea89d6430492735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 10/42] fix: missing values may be met in only rules when no
 report is requested

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b6a99a8..e86796e 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -668,7 +668,8 @@ class Footprint:
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
             if actualvalue is None:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From 425d1c36df7ab9bad46ce4c5b1786c2ddd8b548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 11/42] fix: a single string is a valid item for an only rule

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e86796e..63d5c8f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -653,7 +653,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From 1fa88a825ce23d1cc773f1e766c1e591de5122ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 12/42] fix: several values or outcast items can be retyped

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 63d5c8f..2ba6df2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,7 +209,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From 8f8525cf08c2c8b17b55f49ecd87c9eb0368b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 13/42] fix: long reference chains and large footprints are not
 mistaken for cycles

---
 src/footprints/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 2ba6df2..1c474d7 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -447,7 +447,7 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        if nbpass > max(50, len(guess)):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
@@ -576,9 +576,11 @@ class Footprint:
             kfast = todokfast.popleft()
             todokset.discard(k)
             kdef = attrs[k]
-            nbpass += 1
-            if (not self._replacement(nbpass, k, kfast, guess, extras, todok, todokfast, todokset) or
-                    guess[k] is None):
+            nbpass += 1  # Number of successive tries without any attribute being settled
+            if not self._replacement(nbpass, k, kfast, guess, extras, todok, todokfast, todokset):
+                continue
+            nbpass = 0
+            if guess[k] is None:
                 continue
 
             attr_seen.add(k)
-- 
2.43.0


From 34818a666f7aee409916c0e1a3728d166e4a1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 14/42] fix: extras that refer to themselves do not hang the
 resolution

---
 src/footprints/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1c474d7..84ffc61 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -454,8 +454,13 @@ class Footprint:
         guessk = guess[k]
 
         changed = 1
+        nbsubst = 0
         while changed:
             changed = 0
+            nbsubst += 1
+            if nbsubst > 1000:
+                logger.error('Replacements in attribute %s probably cycling too much...', k)
+                raise FootprintMaxIter('Too many Footprint replacements')
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
                 if mobj:
-- 
2.43.0


From c1f75e874ed50808f054f503235d8c9768ff5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 15/42] fix: replacement values are not regular expression
 templates

---
 src/footprints/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 84ffc61..4b3315e 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -421,7 +421,7 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            guessk = replattr.sub(lambda _: myautofmt(starter), guessk, 1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -502,7 +502,7 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                guessk = replattr.sub(lambda _: myautofmt(guess[replk]), guessk, 1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -510,7 +510,7 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            guessk = replattr.sub(lambda _: myautofmt(extras[replk]), guessk, 1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
-- 
2.43.0


From 8050eab5345a73f9389cd011a7cb8c55615eef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 16/42] fix: text captured by a glob is inserted verbatim

---
 src/footprints/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..44b9c47 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
             for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 2f587d16b4a2b6fc4ac844738f59d12e205a19fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 17/42] fix: comparing a priority level with an unknown one is
 not an error

---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From 82ee295b556afabab6db13cd076a326174d262a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 18/42] fix: inserting a priority next to an unknown one leaves
 the set unchanged

---
 src/footprints/priorities.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..72eaedc 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -202,17 +202,20 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        reference = after if after is not None else before
+        if reference is not None:
+            if isinstance(reference, PriorityLevel):
+                reference = reference.tag
+            reference = reference.upper()
+            if reference == tag or reference not in self._levels:
+                raise ValueError('No such reference level priority: {!s}'.format(reference))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-            if isinstance(after, PriorityLevel):
-                after = after.tag
-            self._levels.insert(self._levels.index(after.upper()) + 1, tag)
+            self._levels.insert(self._levels.index(reference) + 1, tag)
         elif before is not None:
             self._levels.remove(tag)
-            if isinstance(before, PriorityLevel):
-                before = before.tag
-            self._levels.insert(self._levels.index(before.upper()), tag)
+            self._levels.insert(self._levels.index(reference), tag)
         return self.level(tag)
 
 
-- 
2.43.0


From 0f5867b1d8b740b03bb45b4558e510c3102900f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 19/42] fix: priority levels remain attached to their set when
 copied on their own

---
 src/footprints/priorities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 72eaedc..2aeeb91 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -21,6 +21,12 @@ class PriorityLevel:
     def __call__(self):
         return self.rank
 
+    def __deepcopy__(self, memo):
+        """A level remains in its set (unless the set itself is being copied)."""
+        if id(self._pset) in memo:
+            return self.__class__(self._tag, memo[id(self._pset)])
+        return self
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From 68717025b5810024c7c7f5e56e1319e43490c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 20/42] fix: clear and reduce_to_last preserve the nature of
 the log

---
 src/footprints/reporting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..7390ad2 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -234,11 +234,15 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._current = None
+        self._touch = True
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
+        self._touch = True
 
     @property
     def last(self):
-- 
2.43.0


From 850de15b6068f8d53f0b6285a15ea2f8aa7d7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 21/42] fix: dictionary and xml views of a report do not hide
 each other updates

---
 src/footprints/reporting.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 7390ad2..855f3e5 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -211,6 +211,7 @@ class FootprintLog(getbytag.GetByTag):
         self._current = None
         self._xml = None
         self._dict = dict()
+        self._dict_stamp = None
         self._touch = False
 
     def info(self):
@@ -312,19 +313,28 @@ class FootprintLog(getbytag.GetByTag):
         else:
             return None
 
+    def _check_touch(self):
+        """Forget any view that was built before the last update of the log."""
+        if self._touch:
+            self._xml = None
+            self._dict = dict()
+            self._touch = False
+
     def as_xml(self, force=False):
         """Return a true class:`xml.dom.minidom.Document`."""
-        if not self._xml or self._touch or force:
+        self._check_touch()
+        if not self._xml or force:
             self._xml = StandardReport(tag=self.tag)
             for item in self._log:
                 item.feed_xml(self._xml)
-            self._touch = False
         return self._xml
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
+        self._check_touch()
+        if not self._dict or self._dict_stamp != stamp or force:
             self._dict = dict()
+            self._dict_stamp = stamp
             for i, item in enumerate(self._log):
                 key = item.name
                 if stamp:
@@ -332,7 +342,6 @@ class FootprintLog(getbytag.GetByTag):
                 else:
                     key += '_{:04d}'.format(i + 1)
                 self._dict[key] = item.as_dict()
-            self._touch = False
         return self._dict
 
     def fulldump(self, stamp=False):
-- 
2.43.0


From 06f5f4cd39f9c401ec5fecf7e4b7b39e8025237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 22/42] fix: a class definition that is refused is not
 registered anywhere

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 4b3315e..f0cf731 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -840,9 +840,10 @@ class FootprintBaseMeta(type):
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if not thisfp.allkeys().isdisjoint((cname, collectors.Collector.tag_clean(cname))):
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From fa6a364407199c010fa31678a64704278398380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 23/42] fix: equal FPDict or FPSet have equal hashes

---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From 5afc87d119e12eeb251ce63c020dae27f24f22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 24/42] fix: remapped attributes are not restricted by the
 fasttrack index

---
 src/footprints/collectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index ff7f822..c415390 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -150,8 +150,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             myfp = cls.footprint_retrieve()
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
-                # Is there some restrictions on values ?
-                if myvalues:
+                # Is there some restrictions on values ? (any value may be turned into a valid one by remap)
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
-- 
2.43.0


From 242ae002be2fee118fa9c5189e377c903148b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 25/42] fix: values that can not be hashed or converted are
 ignored by fasttrack

---
 src/footprints/collectors.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index c415390..eaf2830 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -223,20 +223,21 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             objgroup_list = list()
             for k, v in desc.items():
                 if k in self._fasttrack_attr:
-                    # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
-                        indexkey = v
-                    else:
-                        # A type conversion might be usefull
-                        try:
-                            v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
-                            v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
-                            indexkey = v_conv
+                    try:
+                        # Check if the key's value is in the index
+                        if v in self._fasttrack_index[k]:
+                            indexkey = v
                         else:
-                            # Ok we give up...
-                            indexkey = None
+                            # A type conversion might be usefull
+                            v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
+                            if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                                indexkey = v_conv
+                            else:
+                                # Ok we give up...
+                                indexkey = None
+                    except Exception:
+                        # Not hashable or not convertible: we give up...
+                        indexkey = None
 
                     if indexkey is not None:
                         logger.debug('Fasttrack subsetting took place for key %s', k)
-- 
2.43.0


From 1e4c5ba328040388091967ad2e2ce9ff47f4c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 26/42] fix: clear and pop also update the fasttrack index

---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index eaf2830..234ee32 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -268,6 +268,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary entry from the current catalog."""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Remove all the entries from the current catalog."""
+        super().clear()
+        self.fasttrack = self.fasttrack
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From 0725dd0e26382668af25ef61a83c2ef005c8a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 27/42] fix: visibility always comes first in the ordering of
 documented attributes

---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..11aae26 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, - item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From a6a77aca99885dc7f59e13a6abd96887a01cf6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 28/42] fix: the dictionaries used to define a footprint are
 left untouched

---
 src/footprints/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 44b9c47..a281975 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -31,6 +31,7 @@ def list2dict(a, klist):
     Reshape any entry of *a* specified in *klist* as a dictionary of the
     iterable contents of these entries.
     """
+    a = dict(a)
     for k in klist:
         if k in a and isinstance(a[k], (list, tuple)):
             ad = dict()
-- 
2.43.0


From 691ae55bfb93a0ba745fe3b06bd5cb1fd2a7870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 29/42] fix: dictionary matching waits for the expansion of the
 related entry

---
 src/footprints/util.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index a281975..a8d976a 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -155,6 +155,16 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + '$'), finalglob
 
 
+def _expandable(value):
+    """Tell whether **value** is to be replaced by several items when expanding a description."""
+    if isinstance(value, (list, tuple, set)):
+        return True
+    return (isinstance(value, str) and not value.__class__.__name__.startswith('FP') and
+            (',' in value or
+             re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', value, re.IGNORECASE) is not None or
+             re.search(r'{glob:\w+:', value) is not None))
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -286,7 +296,7 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        if not _expandable(dv):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From be99028925dfe6460214868289b2b73cc4986e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 30/42] fix: a search does not write in the report when
 reporting is off

---
 src/footprints/collectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 234ee32..b1000fe 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -330,7 +330,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = self.report_log if self.report and self.report != config.ONERROR_REPORTING else None
         while requeue:
             requeue = False
             if self.report and report_log is not None:
@@ -356,7 +356,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = self.report_log if self.report and self.report != config.ONERROR_REPORTING else None
         while requeue:
             requeue = False
             found = list()
-- 
2.43.0


From b20c62dea8e0bd815751f4d9bfe82cb0274a8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 31/42] fix: the undefined marker is not shown among the
 attributes values

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f0cf731..c89d977 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1010,7 +1010,8 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     @property
     def footprint_attributes_values(self):
         """Returns the list of current attributes values."""
-        return sorted(self._attributes.values())
+        values = [self.footprint_getattr(a) for a in self._attributes]
+        return sorted(values, key=lambda v: (v is not None, v))
 
     def footprint_as_shallow_dict(self):
         """Returns a dictionary that contains the current attributes (shallow copy)."""
-- 
2.43.0


From 1cda28a57569d828db6a34ed00f062a565148874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 32/42] fix: a reference of an attribute to itself never
 replaces anything

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c89d977..f83db24 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -495,7 +495,7 @@ class Footprint:
                             logger.error('Actual defaults: %s', setup.defaults)
                             raise FootprintUnreachableAttr('Could not replace attribute ' + replk)
                     if replk in guess:
-                        if replk not in todok:
+                        if replk not in todok and replk != k:
                             changed = 1
                             if replm:
                                 replk_v = guess[replk]
-- 
2.43.0


From 475311d098c6ef594d499e441b259894f86578ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 33/42] fix: a member whose value is '__SKIP__' is a value like
 any other

---
 src/footprints/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f83db24..6543160 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -410,9 +410,7 @@ class Footprint:
                         except Exception as trouble:
                             logger.critical(trouble)
                             if requeue:
-                                starter = '__SKIP__'
-                                changed = 0
-                                break
+                                return guessk, 0
                             else:
                                 raise
                     if starter is None:
@@ -420,7 +418,7 @@ class Footprint:
                         break
                 else:
                     starter = subattr
-        if guessk is not None and starter != '__SKIP__':
+        if guessk is not None:
             guessk = replattr.sub(lambda _: myautofmt(starter), guessk, 1)
         return guessk, changed
 
-- 
2.43.0


From 6faf96d49b295b2263cdbe0c4c41a2ba344d65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 34/42] fix: a glob statement that is not a valid expression as
 a whole raises ValueError

---
 src/footprints/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index a8d976a..3bcd1ce 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -152,7 +152,12 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer
 
-    return glob_names, re.compile('^' + finalpattern + '$'), finalglob
+    try:
+        finalre = re.compile('^' + finalpattern + '$')
+    except re.error as trouble:
+        raise ValueError("Unable to compile << {:s} >>: {!s}".format(finalpattern, trouble))
+
+    return glob_names, finalre, finalglob
 
 
 def _expandable(value):
-- 
2.43.0


From b34b96bfac1cd65f4f24b490ad0732dce53f0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 35/42] fix: a glob statement matches the whole file name,
 whatever its last character

---
 src/footprints/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 3bcd1ce..c621c82 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -153,7 +153,7 @@ def _parse_globs(todo):
         finalglob += curbuffer
 
     try:
-        finalre = re.compile('^' + finalpattern + '$')
+        finalre = re.compile('^' + finalpattern + r'\Z')
     except re.error as trouble:
         raise ValueError("Unable to compile << {:s} >>: {!s}".format(finalpattern, trouble))
 
-- 
2.43.0


From 779f1b085f6ccad8edb198a42bc54af7ae379963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 36/42] fix: square brackets of the literal text of a glob
 statement stand for themselves

---
 src/footprints/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index c621c82..bff5db9 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -108,7 +108,7 @@ def _parse_globs(todo):
                 # Starting a glob pattern match
                 if curbuffer:
                     finalpattern += glob2re(curbuffer)
-                    finalglob += curbuffer
+                    finalglob += curbuffer.replace('[', '[[]')
                     curbuffer = ''
                 curname = gmatch.group(1)
                 if curname in glob_names:
@@ -150,7 +150,7 @@ def _parse_globs(todo):
     if curbuffer:
         # Save the remain
         finalpattern += glob2re(curbuffer)
-        finalglob += curbuffer
+        finalglob += curbuffer.replace('[', '[[]')
 
     try:
         finalre = re.compile('^' + finalpattern + r'\Z')
-- 
2.43.0


From 7e2cba1b26e4f22a7fa058a3a8b8a3cd0a240d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 37/42] fix: captured texts that look like a reference are not
 replaced in turn

---
 src/footprints/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index bff5db9..9d150d4 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,8 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            for g in globs.keys():
-                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
+            newd[k] = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 0a7563ad5d1cd08799ed25602238c1a2757fef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 38/42] fix: protected strings stay protected when captured
 texts are put in

---
 src/footprints/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9d150d4..9eb5ca4 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,9 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            newd[k] = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
+            text = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
+            if text != newd[k]:
+                newd[k] = newd[k].__class__(text)
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From ea2f069c4b0e4a929087dec4ec3fe47f3cfa64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 39/42] fix: factorized reports put all the selected values
 first, even consecutive ones

---
 src/footprints/reporting.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 855f3e5..e1a7855 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -501,10 +501,9 @@ class FactorizedReport:
         order = list()
         other = list(dic.keys())
         for val in self.interestingValues(list(self.keys())[depth]):
-            for v in other:
-                if v[1].startswith(val):
-                    order.append(v)
-                    other.remove(v)
+            for v in [x for x in other if x[1].startswith(val)]:
+                order.append(v)
+                other.remove(v)
         order.extend(other)
         return order
 
-- 
2.43.0


From fcbbdf4900345d83d279f401b3285a18bc653ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 40/42] fix: iterating over the last entry of an XML report
 gives a dictionary of its own for each rejection

---
 src/footprints/reporting.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index e1a7855..e540e52 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -402,11 +402,10 @@ class StandardReport:
     def iter_last(self):
         """Iterate on last node and return ( class, name, why ) information."""
         for kid in self.root.lastChild.childNodes:
-            dico = dict(classname=kid.getAttribute('name'))
             for subkid in kid.childNodes:
-                dico['name'] = subkid.getAttribute('name')
-                dico['why'] = subkid.getAttribute('why')
-                yield dico
+                yield dict(classname=kid.getAttribute('name'),
+                           name=subkid.getAttribute('name'),
+                           why=subkid.getAttribute('why'))
 
 
 class FlatReport:
-- 
2.43.0


From 71162c390a236af8e7c530d19450087718d0da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 41/42] fix: an entry without an ordering key is refused with
 the intended error

---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index e540e52..4712741 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -528,7 +528,7 @@ class FactorizedReport:
                     dic = dic[(kj, v)]
                     break
             if v is None:
-                raise KeyError("Ordering key not found: {:s}".format(k))
+                raise KeyError("Ordering key not found: {!s}".format(k))
         info = kw.get('args', '')
         dic[tagvalue] = str(info)
 
-- 
2.43.0


From f785c6413c5959d61fa4beb2eb56bb232cb5a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 42/42] fix: a single attribute name given to the attribute map
 is not a set of letters

---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index b1000fe..3fb86f3 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -437,7 +437,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0

