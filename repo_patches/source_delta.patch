From 14d5a2ea44856d8beb9856595e71cbb16d767b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 01/40] fix: number validation raises ValidationError, not
 OverflowError, on infinite or huge input

---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..ca9c695 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From fd908b16e7c38fe3c224e21d94e7e2f1b7f1dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 02/40] fix: Float and Complex values inf and nan are equal to
 themselves

---
 properties/basic.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index ca9c695..31913c3 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -843,6 +843,13 @@ class Integer(Boolean):
         return int(value)
 
 
+def _close(value_a, value_b):
+    """Checks if two floats are within tolerance, both infinite, or both nan"""
+    if abs(value_a - value_b) <= TOL:
+        return True
+    return value_a == value_b or (value_a != value_a and value_b != value_b)   #pylint: disable=comparison-with-itself
+
+
 class Float(Integer):
     """Property for float values
 
@@ -879,8 +886,8 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
-        except TypeError:
+            return _close(value_a, value_b)
+        except (TypeError, OverflowError):
             return False
 
     @staticmethod
@@ -928,10 +935,10 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal = _close(value_a.real, value_b.real)
+            imag_equal = _close(value_a.imag, value_b.imag)
             return real_equal and imag_equal
-        except (TypeError, AttributeError):
+        except (TypeError, AttributeError, OverflowError):
             return False
 
     @staticmethod
-- 
2.43.0


From 227e016eab66a8ef9f26f20fc3bf05aef11be6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 03/40] fix: deserialize does not store values of dynamic
 properties

---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..7daf081 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -582,6 +582,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 for key, val in iteritems(mutable):
                     setattr(instance, key, val)
         for key, val in iteritems(immutable):
+            if isinstance(output_cls._props[key], basic.DynamicProperty):
+                continue
             valid_val = output_cls._props[key].validate(instance, val)
             instance._backend[key] = valid_val
         if assert_valid and not instance.validate():
-- 
2.43.0


From 1d67089c81ac9dd2ce223564511d781030d19b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 04/40] fix: in-place operators do not detach a container that
 remains stored

---
 properties/base/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..f9a655f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,8 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 7923d77214d8280c28d030db7042ab47fb9356c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 05/40] fix: Integer.from_json does not truncate non-integer
 floats

---
 properties/basic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 31913c3..71e9696 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -840,7 +840,15 @@ class Integer(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return int(value)
+        try:
+            intval = int(value)
+        except OverflowError:
+            raise ValueError('Could not load integer from JSON: '
+                             '{}'.format(value))
+        if isinstance(value, float) and abs(value - intval) > TOL:
+            raise ValueError('Could not load integer from JSON: '
+                             '{}'.format(value))
+        return intval
 
 
 def _close(value_a, value_b):
-- 
2.43.0


From 900e00b52ac720749e52047675cd32599da6cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 06/40] fix: Array.deserialize does not truncate floats if
 dtype lists int first

---
 properties/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..d090ecc 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -221,7 +221,11 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        value = self.wrapper(value)
+        for typ in self.dtype:
+            if np.can_cast(value.dtype, typ):
+                return value.astype(typ)
+        return value.astype(float if float in self.dtype else self.dtype[0])
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 350db42e9e2921e615ad44831e32d636579ba482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 07/40] fix: vector array validation accepts tuples of strings
 and does not modify the input list

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index d090ecc..2868f2f 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -449,6 +449,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -519,6 +520,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From fcf5d6dda9f184e21cac1b1415d5dd036f6a9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 08/40] fix: scaling a vector to length does not modify the
 input array

---
 properties/math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/math.py b/properties/math.py
index 2868f2f..8405fbd 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -285,6 +285,7 @@ class BaseVector(Array):
         value = super(BaseVector, self).validate(instance, value)
 
         if self.length is not None:
+            value = value.copy()
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 4854c5e594fb3e20d85ccae653cc255fde9309c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 09/40] fix: re-entering the same listeners_disabled context
 restores the listeners

---
 properties/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..ed2522b 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -28,6 +28,7 @@ class listeners_disabled(object):                                              #
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
+        self._previous_states = []
 
     @property
     def disable_type(self):
@@ -53,14 +54,14 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        self._previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From 20d350eddc2ce724075c2b1d0a79864a6914bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 10/40] fix: Singleton.deserialize does not modify its input
 dictionary

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 19733d08aea1b6f0cc4798d6c964456cc33187a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 11/40] fix: HasUID.deserialize honours assert_valid

---
 properties/extras/uid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..ae69008 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -164,6 +164,7 @@ class HasUID(base.HasProperties):
                 value=value,
                 trusted=trusted,
                 strict=strict,
+                assert_valid=assert_valid,
                 registry=registry,
                 _instance=new_inst,
                 **kwargs
-- 
2.43.0


From 864fc9b35e928bd390829707ceca5506e01f0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 12/40] fix: HasUID instances are not loaded by uids they no
 longer have

---
 properties/extras/uid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index ae69008..7b72d33 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -46,7 +46,10 @@ class HasUID(base.HasProperties):
 
     @handlers.observer('uid')
     def _update_instances(self, change):
-        self._INSTANCES.update({change['value']: self})
+        if self._INSTANCES.get(change['previous']) is self:
+            self._INSTANCES.pop(change['previous'])
+        if change['value'] is not utils.undefined:
+            self._INSTANCES.update({change['value']: self})
 
     @classmethod
     def validate_uid(cls, uid):                                                #pylint: disable=unused-argument
@@ -159,6 +162,7 @@ class HasUID(base.HasProperties):
                 input_class = None
             new_cls = cls._deserialize_class(input_class, trusted, strict)
             new_inst = new_cls()
+            new_inst._INSTANCES.pop(new_inst.uid, None)
             registry.update({uid: new_inst})
             super(HasUID, cls).deserialize(
                 value=value,
-- 
2.43.0


From 7a478f1d326c73209efa352f2269a28c8ec22038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 13/40] fix: report_status accepts a status without progress

---
 properties/extras/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..c507b1f 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -83,7 +83,7 @@ class BaseTask(object):
         status = Instance('', TaskStatus).validate(None, status)
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent=int(round(100*(status.progress or 0))),
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From 83324bbabc21a29dafd6d1109278f03740619fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 14/40] fix: URL.info returns its description

---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From cdbb57ceb3ea081c970276e79511cc9928b5cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 15/40] fix: ImagePNG.to_json encodes the whole image wherever
 it was read to

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From 8d406b35f453001e302959fa7a3c08d155cc7f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 16/40] fix: color name firebrick

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 71e9696..8381983 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1543,7 +1543,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From eec2661e1b3559377766197e47128b869028b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 17/40] fix: DateTime.to_json pads years before 1000 so they
 can be loaded

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 8381983..84005b7 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1271,7 +1271,7 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
-        return value.strftime('%Y-%m-%dT%H:%M:%SZ')
+        return value.strftime('%Y-%m-%dT%H:%M:%SZ').zfill(20)
 
     @staticmethod
     def from_json(value, **kwargs):
-- 
2.43.0


From 3e28d991e26a5b78e313a3a4c9af886a5adca072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 18/40] fix: dynamic properties are serialized by their prop

---
 properties/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 84005b7..b2b6077 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -583,6 +583,10 @@ class DynamicProperty(GettableProperty):                                       #
 
         return property(fget=fget, fset=fset, fdel=fdel, doc=scope.sphinx())
 
+    def serialize(self, value, **kwargs):
+        """Serialize the dynamic value using prop"""
+        return self.prop.serialize(value, **kwargs)
+
     def equal(self, value_a, value_b):
         """Determine equality based on prop"""
         return self.prop.equal(value_a, value_b)
-- 
2.43.0


From d38c0eaec8ded15e5b62de1a01ab79b34f36133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 19/40] fix: min and max of None may be given together with the
 other bound

---
 properties/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index b2b6077..4059245 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -797,7 +797,7 @@ class Integer(Boolean):
 
     @min.setter
     def min(self, value):
-        if self.max is not None and value > self.max:
+        if value is not None and self.max is not None and value > self.max:
             raise TypeError('min must be <= max')
         self._min = value
 
@@ -808,7 +808,7 @@ class Integer(Boolean):
 
     @max.setter
     def max(self, value):
-        if self.min is not None and value < self.min:
+        if value is not None and self.min is not None and value < self.min:
             raise TypeError('max must be >= min')
         self._max = value
 
-- 
2.43.0


From 7f2f6d8117528bed7bbbd1267ef119260c3ee264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 20/40] fix: Tuple properties validate namedtuples

---
 properties/base/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index f9a655f..9f412c0 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -272,6 +272,8 @@ class Tuple(basic.Property):
             out_class = self._class_container
         else:
             out_class = value.__class__
+        # namedtuples are constructed from an iterable with _make
+        out_class = getattr(out_class, '_make', out_class)
         out = []
         for val in value:
             try:
-- 
2.43.0


From 1990aa710b66e92b1c537baf2310960fa4e5652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 21/40] fix: zero-dimensional arrays are coerced to containers
 of length 1

---
 properties/base/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 9f412c0..d4b41ae 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -266,7 +266,10 @@ class Tuple(basic.Property):
         """
         if not self.coerce and not isinstance(value, self._class_container):
             self.error(instance, value)
-        if self.coerce and not isinstance(value, CONTAINERS):
+        if self.coerce and (
+                not isinstance(value, CONTAINERS) or
+                getattr(value, 'shape', None) == ()
+        ):
             value = [value]
         if not isinstance(value, self._class_container):
             out_class = self._class_container
-- 
2.43.0


From da539be05e4d8d45f9bf59cf74b4d0655d011963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 22/40] fix: unhashable items of sets and dictionaries raise
 ValidationError

---
 properties/base/containers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index d4b41ae..be5907d 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -283,7 +283,10 @@ class Tuple(basic.Property):
                 out += [self.prop.validate(instance, val)]
             except ValueError:
                 self.error(instance, val, extra='This item is invalid.')
-        return out_class(out)
+        try:
+            return out_class(out)
+        except TypeError as err:
+            self.error(instance, value, extra='({})'.format(err))
 
     def assert_valid(self, instance, value=None):
         """Check if tuple and contained properties are valid"""
@@ -596,7 +599,10 @@ class Dictionary(basic.Property):
                     val = self.value_prop.validate(instance, val)
                 except ValueError:
                     self.error(instance, val, extra='This value is invalid.')
-            out[key] = val
+            try:
+                out[key] = val
+            except TypeError:
+                self.error(instance, key, extra='This key is not hashable.')
         value = out
         if not self.observe_mutations:
             return value
-- 
2.43.0


From 09fe4b22fec3465f7cef67ba7207e38ee8b4a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 23/40] fix: arrays of any shape can be compared by plain
 properties

---
 properties/basic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 4059245..d6ba4f4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -269,7 +269,15 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
-        equal = value_a == value_b
+        try:
+            equal = value_a == value_b
+        except ValueError:
+            if hasattr(value_a, 'shape') or hasattr(value_b, 'shape'):
+                # Arrays with different shapes cannot be compared
+                return False
+            raise
+        if hasattr(equal, 'all'):
+            return bool(equal.all())
         if hasattr(equal, '__iter__'):
             return all(equal)
         return equal
-- 
2.43.0


From 793cb2f5667e5d1a217d28197bc9b3fefafe6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 24/40] fix: equality of instances does not compare renamed
 properties

---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7daf081..66b3809 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -646,6 +646,8 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From 597d2109f4eb281bf9a1d18e649a1c82f1940a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 25/40] fix: properties and handlers of a class follow its
 method resolution order

---
 properties/base/base.py | 49 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 66b3809..5c5ee3d 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -22,28 +22,41 @@ else:
 GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 
 
+def merge_mros(bases):
+    """Helper function to compute the MRO of a class with the given bases
+
+    This is the same C3 linearization Python uses. If the bases have no
+    consistent MRO, the remaining classes are left out; in that case,
+    Python raises an error when the class is created.
+    """
+    output = []
+    mros = [list(base.__mro__) for base in bases] + [list(bases)]
+    while any(mros):
+        for item in (mro[0] for mro in mros if mro):
+            if not any(item in mro[1:] for mro in mros):
+                break
+        else:
+            break
+        output.append(item)
+        mros = [[cls for cls in mro if cls is not item] for mro in mros]
+    return output
+
+
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
-    output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
-    for base in reversed(bases):
-        # Only keep the items that are still defined on the bases
+    # Go through the ancestors from furthest to nearest
+    for base in reversed(merge_mros(bases)):
+        base_items = OrderedDict()
         if base is not object and isinstance(base, PropertyMetaclass):
-            output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
-                all_bases.append(item)
-    # Update the items in reverse MRO order; only keep those that are
-    # defined on the bases
-    for base in all_bases:
-        for key, val in iteritems(getattr(base, attr)):
-            if key in base.__dict__ and key in output_keys:
+            base_items = getattr(base, attr)
+        # Remove items that are overridden by something else on this base
+        for key in base.__dict__:
+            if key in output and key not in base_items:
+                output.pop(key)
+        # Update the items with those defined on this base
+        for key, val in iteritems(base_items):
+            if key in base.__dict__:
                 output.update({key: val})
     # Remove all items that were overridden by this class; this is
     # potentially a superset of the items added back in the next step.
-- 
2.43.0


From 2ae4f600c73ea841a62011b6d201dc64391a99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 26/40] fix: HasUID.deserialize accepts several references to
 one instance

---
 properties/extras/uid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 7b72d33..39c7cf1 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -150,11 +150,11 @@ class HasUID(base.HasProperties):
             uid = value
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
-        if uid in cls._INSTANCES:
-            raise ValueError('UID already used: {}'.format(uid))
         if uid not in registry:
             raise ValueError('Invalid UID: {}'.format(uid))
         value = registry[uid]
+        if uid in cls._INSTANCES and value is not cls._INSTANCES[uid]:
+            raise ValueError('UID already used: {}'.format(uid))
         if not isinstance(value, HasUID):
             try:
                 input_class = value.get('__class__')
-- 
2.43.0


From 3f1dfa4068e0fa8338ed425b021e5c4e8f64df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 27/40] fix: a failed Singleton.deserialize registers nothing

---
 properties/extras/singleton.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..b8be807 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -85,13 +85,17 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
         value.update({'name': identifier})
-        newinst = super(Singleton, cls).deserialize(
-            value,
-            trusted=trusted,
-            strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
-        )
-        if name:
-            newinst.name = name
+        try:
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+            if name:
+                newinst.name = name
+        except Exception:
+            cls._SINGLETONS.pop(identifier, None)
+            raise
         return newinst
-- 
2.43.0


From 2ade2c0357522c1aa2167955cbf68faf64f48db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 28/40] fix: singletons without a name property can be
 deserialized

---
 properties/extras/singleton.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index b8be807..ac919d4 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -83,9 +83,19 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
+        output_cls = cls._deserialize_class(
+            input_cls_name=value.get('__class__'),
+            trusted=trusted,
+            strict=strict,
+        )
+        if identifier in output_cls._SINGLETONS:
+            return output_cls._SINGLETONS[identifier]
         name = value.get('name', None)
-        value.update({'name': identifier})
+        if 'name' in output_cls._props:
+            value.update({'name': identifier})
         try:
+            if 'name' not in output_cls._props:
+                kwargs.update({'_instance': output_cls(identifier)})
             newinst = super(Singleton, cls).deserialize(
                 value,
                 trusted=trusted,
@@ -96,6 +106,6 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             if name:
                 newinst.name = name
         except Exception:
-            cls._SINGLETONS.pop(identifier, None)
+            output_cls._SINGLETONS.pop(identifier, None)
             raise
         return newinst
-- 
2.43.0


From 499c26f3ddee4baefa384b73e10874c7625d136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 29/40] fix: arrays whose contents numpy refuses are validation
 errors

---
 properties/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 8405fbd..57a463d 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -142,7 +142,10 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (AttributeError, OverflowError, TypeError):
+                self.error(instance, value, extra='Invalid contents.')
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From 9e6a17a9060a4d40340b21188517694eb4e45283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 30/40] fix: arrays without dimensions can be serialized

---
 properties/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index 57a463d..c381e6f 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -237,9 +237,9 @@ class Array(Property):
         nan values are converted to string 'nan', inf values to 'inf'.
         """
         def _recurse_list(val):
-            if val and isinstance(val[0], list):
+            if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+            return str(val) if np.isnan(val) or np.isinf(val) else val
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From 9d64e61f7b67de43d0ef84f85240d37d28632182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 31/40] fix: array equality does not depend on the order of its
 arguments

---
 properties/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index c381e6f..46ac8dd 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -173,7 +173,9 @@ class Array(Property):
             nan_mask = ~np.isnan(value_a)
             if not np.array_equal(nan_mask, ~np.isnan(value_b)):
                 return False
-            return np.allclose(value_a[nan_mask], value_b[nan_mask], atol=TOL)
+            value_a, value_b = value_a[nan_mask], value_b[nan_mask]
+            return (np.allclose(value_a, value_b, atol=TOL) and
+                    np.allclose(value_b, value_a, atol=TOL))
         except TypeError:
             return False
 
-- 
2.43.0


From b6116fea289b2bc0f994c88cc0b5eba2cba16f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 32/40] fix: vectors with nan or inf can be deserialized

---
 properties/math.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index 46ac8dd..50dd1ff 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -301,6 +301,12 @@ class BaseVector(Array):
                 )
         return value
 
+    def deserialize(self, value, **kwargs):
+        """De-serialize the vector from JSON, including 'nan' and 'inf'"""
+        if self.deserializer is None and isinstance(value, list):
+            value = np.array(value).astype(float)
+        return super(BaseVector, self).deserialize(value, **kwargs)
+
 
 class Vector3(BaseVector):
     """Property for :class:`3D vectors<vectormath.vector.Vector3>`
@@ -348,7 +354,7 @@ class Vector3(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector3(value)
+        return vmath.Vector3(np.array(value).astype(float))
 
 
 class Vector2(BaseVector):
@@ -399,7 +405,7 @@ class Vector2(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector2(value)
+        return vmath.Vector2(np.array(value).astype(float))
 
 
 class Vector3Array(BaseVector):
@@ -470,7 +476,7 @@ class Vector3Array(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector3Array(value)
+        return vmath.Vector3Array(np.array(value).astype(float))
 
 
 class Vector2Array(BaseVector):
@@ -544,7 +550,7 @@ class Vector2Array(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector2Array(value)
+        return vmath.Vector2Array(np.array(value).astype(float))
 
 
 VECTOR_DIRECTIONS = {
-- 
2.43.0


From 3e5d5d1e674f64b2052dcfab43efcedfd35e1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 33/40] fix: files opened with mode wb+ are valid

---
 properties/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index d6ba4f4..94fbdcd 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1417,7 +1417,10 @@ class File(Property):
             self.error(instance, value, extra='Not a file-like object')
         if not hasattr(value, 'mode') or self.valid_modes is None:
             pass
-        elif value.mode not in self.valid_modes:
+        elif value.mode not in self.valid_modes and not (
+                # Files opened with 'wb+' report 'rb+'
+                value.mode == 'rb+' and 'wb+' in self.valid_modes
+        ):
             self.error(instance, value,
                        extra='Invalid mode: {}'.format(value.mode))
         if getattr(value, 'closed', False):
-- 
2.43.0


From 9b96b5558d466486ea70fb6ac0bf4b35dc0dc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 34/40] fix: the PNG signature is read from the start of the
 file

---
 properties/images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..e37dac3 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -63,9 +63,10 @@ class ImagePNG(File):
             pass
         else:
             value = super(ImagePNG, self).validate(instance, value)
+            value.seek(0)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From 1e444edcf078ce058a149c72a3531be86f770ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 35/40] fix: closed images are not valid

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e37dac3..71d4b69 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -57,7 +57,7 @@ class ImagePNG(File):
         """
         # Pass if already validated
         if getattr(value, '__valid__', False):
-            return value
+            return super(ImagePNG, self).validate(instance, value)
         # Validate that value is PNG
         if isinstance(value, png.Image):
             pass
-- 
2.43.0


From a2e9f51fa95b28f1302c7f69ef9f35809ca58319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 36/40] fix: hex colors consist of hex digits

---
 properties/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 94fbdcd..b158767 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1223,6 +1223,9 @@ class Color(Property):
                 self.error(instance, value, extra='Color must be known name '
                            'or a hex with 6 digits. e.g. "#FF0000"')
             try:
+                # int also accepts signs, spaces, and other digits
+                if re.search('[^0-9A-F]', value):
+                    raise ValueError('Hex color must be base 16 (0-F)')
                 value = [
                     int(value[i:i + 6 // 3], 16) for i in range(0, 6, 6 // 3)
                 ]
-- 
2.43.0


From 4da43d43801f69d7c7696e9a2026f52d40fe005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 37/40] fix: dictionaries with keys or values that assert_valid
 calls invalid are invalid

---
 properties/base/containers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index be5907d..72fe598 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -619,10 +619,16 @@ class Dictionary(basic.Property):
             return True
         if self.key_prop or self.value_prop:
             for key, val in iteritems(value):
-                if self.key_prop:
-                    self.key_prop.assert_valid(instance, key)
-                if self.value_prop:
-                    self.value_prop.assert_valid(instance, val)
+                if (
+                        self.key_prop and
+                        not self.key_prop.assert_valid(instance, key)
+                ):
+                    return False
+                if (
+                        self.value_prop and
+                        not self.value_prop.assert_valid(instance, val)
+                ):
+                    return False
         return True
 
     def serialize(self, value, **kwargs):
-- 
2.43.0


From 8abf4b66d2fa53937a3061418c5a5bb83295e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 38/40] fix: Singleton.deserialize keeps a serialized name that
 is empty

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index ac919d4..788771e 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -103,7 +103,7 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
                 assert_valid=assert_valid,
                 **kwargs
             )
-            if name:
+            if name is not None:
                 newinst.name = name
         except Exception:
             output_cls._SINGLETONS.pop(identifier, None)
-- 
2.43.0


From 2069476a623f001cb8e586feb250fd8c3b51b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 39/40] fix: operators of observable containers return
 NotImplemented to let the other operand answer

---
 properties/base/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 72fe598..4937cc9 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -98,6 +98,8 @@ def properties_operator(cls, name):
     def wrapper(self, *args, **kwargs):
         """Perform operation and cast to container class"""
         output = getattr(super(cls, self), name)(*args, **kwargs)
+        if output is NotImplemented:
+            return output
         return cls(output)
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 250a6f3a08b5f36fa90e6695b723d7e78e469b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 40/40] fix: HasUID.deserialize registers and checks the uid in
 the registry of the instance's own class

---
 properties/extras/uid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 39c7cf1..a3e9d14 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -161,6 +161,8 @@ class HasUID(base.HasProperties):
             except AttributeError:
                 input_class = None
             new_cls = cls._deserialize_class(input_class, trusted, strict)
+            if uid in new_cls._INSTANCES:
+                raise ValueError('UID already used: {}'.format(uid))
             new_inst = new_cls()
             new_inst._INSTANCES.pop(new_inst.uid, None)
             registry.update({uid: new_inst})
@@ -173,7 +175,7 @@ class HasUID(base.HasProperties):
                 _instance=new_inst,
                 **kwargs
             )
-        cls._INSTANCES[uid] = registry[uid]
+        registry[uid]._INSTANCES[uid] = registry[uid]
         return registry[uid]
 
 
-- 
2.43.0

