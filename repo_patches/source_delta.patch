From 04827219eabecd1ceb36dc59338159ecd84c0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 01/53] fix: reject numbers too large to convert with a
 validation error

Integer, Float and Complex let OverflowError escape from validate (for
example for infinity or 10**400) instead of raising a ValueError.
---
 properties/basic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..2c48c7a 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,8 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, OverflowError,
+                AttributeError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From 3321e10c50df53510729a5457c3da8d36c7b8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 02/53] fix: store booleans as plain bool so they serialize to
 JSON

Boolean accepted numpy booleans and stored them unchanged, so serialize
produced a value that is not JSON-compatible.
---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 2c48c7a..e4dc911 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -735,7 +735,7 @@ class Boolean(Property):
             value = bool(value)
         if not isinstance(value, BOOLEAN_TYPES):
             self.error(instance, value)
-        return value
+        return bool(value)
 
     def equal(self, value_a, value_b):
         return value_a is value_b
-- 
2.43.0


From 18d5131ab7d933c803a4681fae1f0da554dfe3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 03/53] fix: correct the name of the web color firebrick

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index e4dc911..2d53a59 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1529,7 +1529,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From ceda40d503f909be6c1b3ae627af4b85862a6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 04/53] fix: only accept hexadecimal digits in hex colors

int(x, 16) also accepts signs, whitespace, underscores and non-ASCII
digits, so strings like '+f+f+f' were accepted as colors.
---
 properties/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 2d53a59..814f292 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1197,6 +1197,8 @@ class Color(Property):
                 self.error(instance, value, extra='Color must be known name '
                            'or a hex with 6 digits. e.g. "#FF0000"')
             try:
+                if not all(val in '0123456789ABCDEF' for val in value):
+                    raise ValueError()
                 value = [
                     int(value[i:i + 6 // 3], 16) for i in range(0, 6, 6 // 3)
                 ]
-- 
2.43.0


From d0d03564da6d0f630bba35122ffd58bfa198a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 05/53] fix: accept direction names in any sequence without
 modifying it

Vector2Array and Vector3Array replaced direction names in the caller's
list, and raised an unhandled TypeError for a tuple.
---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..e255fcb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -445,6 +445,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -515,6 +516,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From 69a6ed3e4449dc74128ce0d97d40121bc8a2dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 06/53] fix: serialize datetimes before year 1000 with a
 four-digit year

strftime('%Y') does not pad the year on all platforms, and the unpadded
result cannot be deserialized.
---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 814f292..61ac746 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1259,7 +1259,7 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
-        return value.strftime('%Y-%m-%dT%H:%M:%SZ')
+        return value.replace(microsecond=0, tzinfo=None).isoformat() + 'Z'
 
     @staticmethod
     def from_json(value, **kwargs):
-- 
2.43.0


From 50449b3c12ecae356e7258ba293ea06ec55911ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 07/53] fix: strip strings again after changing case

With strip and change_case both set, validating an already coerced value
could modify it further (for example 'Aab' with strip='a' and
change_case='lower'), which made validate() fail on a freshly set value.
---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index 61ac746..be64994 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1033,6 +1033,7 @@ class String(Property):
             value = value.upper()
         elif self.change_case == 'lower':
             value = value.lower()
+        value = value.strip(self.strip)
         if self.unicode:
             value = text_type(value)
         else:
-- 
2.43.0


From b0017807fb35365a14c496f0eb9fb3036670bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 08/53] fix: treat equal infinities and nan as equal floats and
 complexes

Float and Complex accept, serialize and deserialize nan and infinity, but
equal reported them as different from themselves, so validate() failed on
instances holding them and change observers fired without a change.
---
 properties/basic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index be64994..52f6fe5 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -761,6 +761,13 @@ class Boolean(Property):
 Bool = Boolean
 
 
+def _floats_equal(value_a, value_b):
+    """Checks if two floats are equal within TOL, both infinite, or both nan"""
+    if abs(value_a - value_b) <= TOL or value_a == value_b:
+        return True
+    return value_a != value_a and value_b != value_b                           #pylint: disable=comparison-with-itself
+
+
 def _in_bounds(prop, instance, value):
     """Checks if the value is in the range (min, max)"""
     if (
@@ -879,7 +886,7 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return _floats_equal(value_a, value_b)
         except TypeError:
             return False
 
@@ -929,8 +936,8 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal = _floats_equal(value_a.real, value_b.real)
+            imag_equal = _floats_equal(value_a.imag, value_b.imag)
             return real_equal and imag_equal
         except (TypeError, AttributeError):
             return False
-- 
2.43.0


From de5196981b9ec1f5223120876f62ab9aefccf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 09/53] fix: reject nan when a numeric minimum or maximum is
 given

---
 properties/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 52f6fe5..bf8a40b 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -771,8 +771,8 @@ def _floats_equal(value_a, value_b):
 def _in_bounds(prop, instance, value):
     """Checks if the value is in the range (min, max)"""
     if (
-            (prop.min is not None and value < prop.min) or
-            (prop.max is not None and value > prop.max)
+            (prop.min is not None and not value >= prop.min) or
+            (prop.max is not None and not value <= prop.max)
     ):
         prop.error(instance, value, extra='Not within allowed range.')
 
-- 
2.43.0


From 9e062e377f01e9913fb7d7ab4ccc8ebb7553940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 10/53] fix: keep observing a container after an in-place
 operator on an alias

For a = obj.lst; a += [1] no value is assigned to the HasProperties
instance, but the container was detached from it, so later mutations of
obj.lst were neither validated nor observed.
---
 properties/base/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..f9a655f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,8 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From f0ce98b624873fa452e23508737cf8ab22d7ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 11/53] fix: restore listeners when one disabling context is
 entered twice

Entering the same listeners_disabled instance again while it was active
overwrote the saved state, leaving listeners disabled for good.
---
 properties/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..8956225 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -53,14 +53,15 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        previous_states = self.__dict__.setdefault('_previous_states', [])
+        previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From 4a9caa2d321d957fc324d536938b2542945499fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 12/53] fix: deserialize HasUID structures that share an
 instance

An instance referenced from two places (and not part of a cycle) was
already registered when the second reference was reached, so serialized
structures could not be loaded: 'UID already used'.
---
 properties/extras/uid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..c1efa1d 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -145,6 +145,8 @@ class HasUID(base.HasProperties):
             uid = kwargs.get('root', registry.get('__root__'))
         else:
             uid = value
+        if isinstance(registry.get(uid), HasUID):
+            return registry[uid]
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
         if uid in cls._INSTANCES:
-- 
2.43.0


From bb84867268a02f134db9c54d9dcef6d262ab4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 13/53] fix: release UIDs that are no longer in use

A UID stayed reserved, and load kept returning the instance, after the
instance's uid changed, after construction with that UID failed, and for
the temporary UID used while deserializing.
---
 properties/extras/uid.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index c1efa1d..69e20ed 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -28,9 +28,17 @@ class HasUID(base.HasProperties):
     )
 
     def __init__(self, **kwargs):
-        super(HasUID, self).__init__(**kwargs)
+        try:
+            super(HasUID, self).__init__(**kwargs)
+        except Exception:
+            self._release_uid(self.uid)
+            raise
         self._INSTANCES[self.uid] = self
 
+    def _release_uid(self, uid):
+        if self._INSTANCES.get(uid) is self:
+            self._INSTANCES.pop(uid)
+
     @handlers.validator('uid')
     def _ensure_unique(self, change):
         if self.uid == change['value']:
@@ -46,6 +54,7 @@ class HasUID(base.HasProperties):
 
     @handlers.observer('uid')
     def _update_instances(self, change):
+        self._release_uid(change['previous'])
         self._INSTANCES.update({change['value']: self})
 
     @classmethod
@@ -161,6 +170,7 @@ class HasUID(base.HasProperties):
                 input_class = None
             new_cls = cls._deserialize_class(input_class, trusted, strict)
             new_inst = new_cls()
+            new_inst._release_uid(new_inst.uid)
             registry.update({uid: new_inst})
             super(HasUID, cls).deserialize(
                 value=value,
-- 
2.43.0


From 1b86ff49686074f0a095440f75b68412240e5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 14/53] fix: do not modify the input of Singleton.deserialize

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 405bd1903ee5e2b0c3c57773cef62504b00b7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 15/53] fix: do not compare renamed properties with == in equal

The value of a Renamed property is the value of the new property, which
is already compared with that property's own equal. Comparing it with ==
as well made copies unequal (instances, floats within tolerance) or
raised an error (arrays).
---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..cfd0c52 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -644,6 +644,8 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From 97ed21e2553204cda6ed074d4cf1f39265799170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 16/53] fix: use the new property to (de)serialize a renamed
 property

Values stored under the old name were loaded without the deserializer of
the property they are assigned to, so for example serialized instances
were rejected; with save_dynamic they were written without its serializer.
---
 properties/base/base.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index cfd0c52..781ab7d 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -505,7 +505,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             else:
                 prop_source = self._backend
             data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
+                (key, self._json_prop(key).serialize(getattr(self, key),
+                                                     **kwargs))
                 for key in prop_source
             )
             json_dict = {k: v for k, v in data if v is not None}
@@ -573,7 +574,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            newstate[key] = output_cls._json_prop(key).deserialize(val,
+                                                                   **kwargs)
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
@@ -588,6 +590,18 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             raise utils.ValidationError('Deserialized instance is not valid')
         return instance
 
+    @classmethod
+    def _json_prop(cls, name):
+        """Returns the Property that serializes/deserializes the named value"""
+        prop = cls._props[name]
+        while (
+                isinstance(prop, basic.Renamed) and
+                prop.serializer is None and
+                prop.deserializer is None
+        ):
+            prop = cls._props[prop.new_name]
+        return prop
+
     @classmethod
     def _deserialize_class(cls, input_cls_name, trusted, strict):
         """Returns the HasProperties class to use for deserialization"""
-- 
2.43.0


From efb625077833ed8256dc760b4af33bf14dbb4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 17/53] fix: do not store dynamic property values on
 deserialize

Loading the output of serialize(save_dynamic=True) saved the dynamic
values to the instance, so they were serialized again without asking.
---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 781ab7d..524ee18 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -584,6 +584,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 for key, val in iteritems(mutable):
                     setattr(instance, key, val)
         for key, val in iteritems(immutable):
+            if isinstance(output_cls._props[key], basic.DynamicProperty):
+                continue
             valid_val = output_cls._props[key].validate(instance, val)
             instance._backend[key] = valid_val
         if assert_valid and not instance.validate():
-- 
2.43.0


From 66e05d17d2dad3e4a41dbfd842fb7808afe477cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 18/53] fix: serialize the whole PNG image wherever it was last
 read

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From 1685fa7255a6a59b7dd09afde45e4884be7025bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 19/53] fix: report task status without progress

TaskStatus.progress is optional, but report_status raised a TypeError if
it was not set.
---
 properties/extras/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..c507b1f 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -83,7 +83,7 @@ class BaseTask(object):
         status = Instance('', TaskStatus).validate(None, status)
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent=int(round(100*(status.progress or 0))),
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From aea2359643c3a3231a7474881dab478e80aebeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 20/53] fix: keep fractions and nan when deserializing arrays

Deserialized arrays were always cast to the first allowed type, so with
dtype=(int, float) fractions were truncated and nan raised an error.
---
 properties/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index e255fcb..f1e89ae 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -221,7 +221,11 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        value = self.wrapper(value)
+        dtype = self.dtype[0]
+        if value.dtype.kind not in 'uib' and float in self.dtype:
+            dtype = float
+        return value.astype(dtype)
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 8b6b69b5ef17a988cbb1a4616ce809a1a4f4eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 21/53] fix: serialize zero-dimensional arrays

---
 properties/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index f1e89ae..cf4e268 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -234,9 +234,9 @@ class Array(Property):
         nan values are converted to string 'nan', inf values to 'inf'.
         """
         def _recurse_list(val):
-            if val and isinstance(val[0], list):
+            if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+            return str(val) if np.isnan(val) or np.isinf(val) else val
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From 8d5a7dc13b583554c519979e800eac3d679f79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 22/53] fix: keep the type of deserialized arrays if it is
 allowed

Casting to the first allowed type lost data, for example integers with
dtype=(bool, int), and changed integer arrays to float on copy.
---
 properties/math.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index cf4e268..f959b69 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -222,10 +222,9 @@ class Array(Property):
         if value is None:
             return None
         value = self.wrapper(value)
-        dtype = self.dtype[0]
-        if value.dtype.kind not in 'uib' and float in self.dtype:
-            dtype = float
-        return value.astype(dtype)
+        if any(value.dtype.kind in TYPE_MAPPINGS[typ] for typ in self.dtype):
+            return value
+        return value.astype(float if float in self.dtype else self.dtype[0])
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From eb22c92a1d6eb23a19a356efb3df1c6a249a0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 23/53] fix: inherit properties and listeners in standard MRO
 order

With multiple inheritance a property could still be listed on a class
where a plain attribute overrides it, and the listed property could come
from another base than the attribute Python resolves.
---
 properties/base/base.py | 48 +++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 524ee18..0c19545 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -22,28 +22,38 @@ else:
 GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 
 
+def merge_mro(bases):
+    """Standard method resolution order of a class with the given bases"""
+    sequences = [list(base.__mro__) for base in bases] + [list(bases)]
+    output = []
+    while any(sequences):
+        for sequence in sequences:
+            if sequence and not any(sequence[0] in seq[1:]
+                                    for seq in sequences):
+                break
+        else:
+            raise TypeError('Cannot create a consistent method resolution '
+                            'order (MRO) for the bases')
+        output.append(sequence[0])
+        sequences = [seq[1:] if seq[:1] == output[-1:] else seq
+                     for seq in sequences]
+    return output
+
+
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
-    output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
-    for base in reversed(bases):
-        # Only keep the items that are still defined on the bases
-        if base is not object and isinstance(base, PropertyMetaclass):
-            output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
-                all_bases.append(item)
-    # Update the items in reverse MRO order; only keep those that are
-    # defined on the bases
-    for base in all_bases:
-        for key, val in iteritems(getattr(base, attr)):
-            if key in base.__dict__ and key in output_keys:
+    # Update the items in reverse MRO order, from furthest to nearest
+    # ancestor; remove those that are overridden by something else
+    for base in reversed(merge_mro(bases)):
+        base_items = dict()
+        if isinstance(base, PropertyMetaclass):
+            base_items = getattr(base, attr)
+        for key in base.__dict__:
+            if key in output and key not in base_items:
+                output.pop(key)
+        for key, val in iteritems(base_items):
+            if key in base.__dict__:
                 output.update({key: val})
     # Remove all items that were overridden by this class; this is
     # potentially a superset of the items added back in the next step.
-- 
2.43.0


From e5e3ccc84091656ba3121192498fe76532068b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 24/53] fix: compare union values with every member before
 failing

A Union of a number and an array could not be set or compared while it
held an array, because the number's equal raised an error.
---
 properties/base/union.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1c800c3..6b75842 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -252,7 +252,13 @@ class Union(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return any((prop.equal(value_a, value_b) for prop in self.props))
+        for prop in self.props:
+            try:
+                if prop.equal(value_a, value_b):
+                    return True
+            except GENERIC_ERRORS:
+                continue
+        return False
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 482fb740c3b99cd9daf95c55ac8ef03504822bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 25/53] fix: let unions skip members that cannot convert big
 numbers

Comparing or loading a number above the float range in a Union with a
Float or Complex member raised OverflowError instead of trying the other
members.
---
 properties/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 0c19545..487cdc9 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -19,7 +19,8 @@ if PY2:
 else:
     CLASS_TYPES = (type,)
 
-GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
+GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError,
+                  OverflowError)
 
 
 def merge_mro(bases):
-- 
2.43.0


From 8d4365fd57d504318bd9420df01089eb1146b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 26/53] fix: compare union defaults that have no plain truth
 value

---
 properties/base/union.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 6b75842..c7a3285 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -157,7 +157,12 @@ class Union(basic.Property):
                 continue
             if prop_def is utils.undefined:
                 prop_def = prop.default
-            elif prop_def != prop.default:
+                continue
+            try:
+                ignored = bool(prop_def != prop.default)
+            except GENERIC_ERRORS:
+                ignored = True
+            if ignored:
                 warn('Union prop default ignored: {}'.format(prop.default),
                      RuntimeWarning)
 
-- 
2.43.0


From 8f2d7cbdfb167a3a5f988ed957ab4fdd4829b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 27/53] fix: never report containers of different kinds as
 equal

---
 properties/base/containers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index f9a655f..766381e 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -327,6 +327,9 @@ class Tuple(basic.Property):
         return self._class_container(output_list)
 
     def equal(self, value_a, value_b):
+        if not (isinstance(value_a, self._class_container) and
+                isinstance(value_b, self._class_container)):
+            return False
         try:
             if len(value_a) == len(value_b):
                 equal_list = [self.prop.equal(a, b)
@@ -453,6 +456,9 @@ class Set(List):
     _class_container = set
 
     def equal(self, value_a, value_b):
+        if not (isinstance(value_a, self._class_container) and
+                isinstance(value_b, self._class_container)):
+            return False
         try:
             if len(value_a) != len(value_b):
                 return False
@@ -657,6 +663,9 @@ class Dictionary(basic.Property):
         return self._class_container(output_dict)
 
     def equal(self, value_a, value_b):
+        if not (isinstance(value_a, self._class_container) and
+                isinstance(value_b, self._class_container)):
+            return False
         try:
             if len(value_a) != len(value_b):
                 return False
-- 
2.43.0


From 595105ac452a08ff5cb4aad0a27016da70a6877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 28/53] fix: load vectors with nan and infinite values

---
 properties/math.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index f959b69..ab0cbaa 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -294,6 +294,18 @@ class BaseVector(Array):
                 )
         return value
 
+    def deserialize(self, value, **kwargs):
+        """De-serialize the vector value from JSON
+
+        nan and inf values are strings in JSON; these are converted here
+        since the vector classes only accept numbers.
+        """
+        if self.deserializer is None and isinstance(value, (list, tuple)):
+            array = np.array(value)
+            if array.dtype.kind == 'U':
+                value = array.astype(float)
+        return super(BaseVector, self).deserialize(value, **kwargs)
+
 
 class Vector3(BaseVector):
     """Property for :class:`3D vectors<vectormath.vector.Vector3>`
-- 
2.43.0


From 0e0c4b0d3bb22c4e596db2fb44ef6bea6c77445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 29/53] fix: inherit class defaults in standard MRO order

---
 properties/base/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 487cdc9..8cc11dd 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -225,6 +225,9 @@ class PropertyMetaclass(type):
             )
         classdict['__doc__'] = doc_str
 
+        # Keep the defaults of this class apart from the inherited ones
+        classdict['_own_defaults'] = classdict.get('_defaults', dict())
+
         # Create the new class
         newcls = super(PropertyMetaclass, mcs).__new__(
             mcs, name, bases, classdict
@@ -233,7 +236,8 @@ class PropertyMetaclass(type):
         # Update the class defaults to include inherited values
         _defaults = dict()
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            own = parent.__dict__.get('_defaults', dict())
+            _defaults.update(parent.__dict__.get('_own_defaults', own))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From 91a1770ed56fbe364551bc52c28f118bda9c51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 30/53] fix: failed load of HasUID instances releases their
 UIDs

---
 properties/extras/uid.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 69e20ed..51af894 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -39,6 +39,13 @@ class HasUID(base.HasProperties):
         if self._INSTANCES.get(uid) is self:
             self._INSTANCES.pop(uid)
 
+    @staticmethod
+    def _release_loaded(given, registry):
+        """Release the UIDs of all instances made by a failed load"""
+        for uid, inst in registry.items():
+            if isinstance(inst, HasUID) and inst is not given.get(uid):
+                inst._release_uid(uid)
+
     @handlers.validator('uid')
     def _ensure_unique(self, change):
         if self.uid == change['value']:
@@ -147,7 +154,9 @@ class HasUID(base.HasProperties):
             input parameters.
         """
         registry = kwargs.pop('registry', None)
-        if registry is None:
+        root = registry is None
+        given = value
+        if root:
             if not isinstance(value, dict):
                 raise ValueError('HasUID must deserialize from dictionary')
             registry = value.copy()
@@ -172,14 +181,19 @@ class HasUID(base.HasProperties):
             new_inst = new_cls()
             new_inst._release_uid(new_inst.uid)
             registry.update({uid: new_inst})
-            super(HasUID, cls).deserialize(
-                value=value,
-                trusted=trusted,
-                strict=strict,
-                registry=registry,
-                _instance=new_inst,
-                **kwargs
-            )
+            try:
+                super(HasUID, cls).deserialize(
+                    value=value,
+                    trusted=trusted,
+                    strict=strict,
+                    registry=registry,
+                    _instance=new_inst,
+                    **kwargs
+                )
+            except Exception:
+                if root:
+                    cls._release_loaded(given, registry)
+                raise
         cls._INSTANCES[uid] = registry[uid]
         return registry[uid]
 
-- 
2.43.0


From eeedbe78054c565eceb566005b7aeecc043cead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:28 +0000
Subject: [PATCH 31/53] fix: HasUID.deserialize obeys assert_valid

---
 properties/extras/uid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 51af894..cbbb64e 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -190,6 +190,8 @@ class HasUID(base.HasProperties):
                     _instance=new_inst,
                     **kwargs
                 )
+                if root and assert_valid:
+                    new_inst.validate()
             except Exception:
                 if root:
                     cls._release_loaded(given, registry)
-- 
2.43.0


From 12fa957035aea9f90794eea8e89ac9bafb762862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:48 +0000
Subject: [PATCH 32/53] fix: deleting the UID of an instance does not reserve
 undefined

---
 properties/extras/uid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index cbbb64e..34963ce 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -62,7 +62,8 @@ class HasUID(base.HasProperties):
     @handlers.observer('uid')
     def _update_instances(self, change):
         self._release_uid(change['previous'])
-        self._INSTANCES.update({change['value']: self})
+        if change['value'] is not utils.undefined:
+            self._INSTANCES.update({change['value']: self})
 
     @classmethod
     def validate_uid(cls, uid):                                                #pylint: disable=unused-argument
-- 
2.43.0


From 39c8b1f0077a6a8dc6dcee53a56adc853b45307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 33/53] fix: Singleton.deserialize uses the registry of the
 trusted class

---
 properties/extras/singleton.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..9bfc146 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -81,8 +81,14 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
-        if identifier in cls._SINGLETONS:
-            return cls._SINGLETONS[identifier]
+        output_cls = cls._deserialize_class(
+            input_cls_name=value.get('__class__'),
+            trusted=trusted,
+            strict=False,
+        )
+        singletons = getattr(output_cls, '_SINGLETONS', {})
+        if identifier in singletons:
+            return singletons[identifier]
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 98fb093462272b02ae1f00671fb18c4cde40af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 34/53] fix: failed load of a Singleton does not register it

---
 properties/extras/singleton.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 9bfc146..4f531e9 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -91,13 +91,17 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             return singletons[identifier]
         name = value.get('name', None)
         value.update({'name': identifier})
-        newinst = super(Singleton, cls).deserialize(
-            value,
-            trusted=trusted,
-            strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
-        )
-        if name:
-            newinst.name = name
+        try:
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+            if name:
+                newinst.name = name
+        except Exception:
+            singletons.pop(identifier, None)
+            raise
         return newinst
-- 
2.43.0


From a7fe3dedbdaa48ceb5282cce7b2684ae11d50e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 35/53] fix: empty name values of loaded Singletons are kept

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 4f531e9..ed68158 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -99,7 +99,7 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
                 assert_valid=assert_valid,
                 **kwargs
             )
-            if name:
+            if name is not None:
                 newinst.name = name
         except Exception:
             singletons.pop(identifier, None)
-- 
2.43.0


From 0c5e125271b770bc3cf8dc99de51884652b7695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 36/53] fix: Singletons without a name property can be loaded

---
 properties/extras/singleton.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index ed68158..dac3ab2 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -90,8 +90,14 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         if identifier in singletons:
             return singletons[identifier]
         name = value.get('name', None)
-        value.update({'name': identifier})
         try:
+            if (
+                    issubclass(output_cls, Singleton) and
+                    'name' not in output_cls._props
+            ):
+                kwargs.update({'_instance': output_cls(identifier)})
+            else:
+                value.update({'name': identifier})
             newinst = super(Singleton, cls).deserialize(
                 value,
                 trusted=trusted,
-- 
2.43.0


From f4d070de6ab50094c3b866a52d55e12d1f4f5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 37/53] fix: Instance refuses constructed values of another
 class

---
 properties/base/instance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index 2b622fc..a2560c3 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -99,8 +99,9 @@ class Instance(basic.Property):
             if isinstance(value, self.instance_class):
                 return value
             if isinstance(value, dict):
-                return self.instance_class(**value)
-            return self.instance_class(value)
+                new_value = self.instance_class(**value)
+            else:
+                new_value = self.instance_class(value)
         except GENERIC_ERRORS as err:
             if hasattr(err, 'error_tuples'):
                 extra = '({})'.format(' & '.join(
@@ -109,6 +110,9 @@ class Instance(basic.Property):
             else:
                 extra = ''
             self.error(instance, value, extra=extra)
+        if not isinstance(new_value, self.instance_class):
+            self.error(instance, value)
+        return new_value
 
     def assert_valid(self, instance, value=None):
         """Checks if valid, including HasProperty instances pass validation"""
-- 
2.43.0


From 5306a0b71216a1c76be427606afe93ce8bbd2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:15 +0000
Subject: [PATCH 38/53] fix: dynamic properties are serialized by their
 property

---
 properties/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index bf8a40b..3abfe81 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -514,6 +514,10 @@ class DynamicProperty(GettableProperty):                                       #
         """
         return self.prop.deserializer
 
+    def serialize(self, value, **kwargs):
+        """Serialize using prop serialization"""
+        return self.prop.serialize(value, **kwargs)
+
     def validate(self, instance, value):
         """Validate using prop validation"""
         return self.prop.validate(instance, value)
-- 
2.43.0


From 6c9e51652a46d157844fb7c3fa540428e4cb9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:28 +0000
Subject: [PATCH 39/53] fix: inputs that make no array raise a ValidationError

---
 properties/math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index ab0cbaa..b9d63b8 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -5,7 +5,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import numpy as np
-from six import integer_types, string_types
+from six import integer_types, string_types, text_type
 import vectormath as vmath
 
 from .basic import Property, TOL
@@ -142,7 +142,10 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (ArithmeticError, TypeError, ValueError) as err:
+                self.error(instance, value, extra=text_type(err))
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From ecc65f89d58c30e62608123850f91dc0ff9ae6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:30 +0000
Subject: [PATCH 40/53] fix: scaling vectors to a length does not modify the
 input

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index b9d63b8..bc0f9db 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -287,6 +287,8 @@ class BaseVector(Array):
         value = super(BaseVector, self).validate(instance, value)
 
         if self.length is not None:
+            if not self.coerce:
+                value = value.copy()
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From e608952e25d7587bb05cb5a560770491a1796174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 41/53] fix: the error hook is called once per failure and
 never on success

---
 properties/basic.py | 12 ++++++++----
 properties/utils.py | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3abfe81..2479539 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -14,7 +14,7 @@ import warnings
 
 from six import integer_types, string_types, text_type, with_metaclass
 
-from .utils import undefined, ValidationError
+from .utils import single_error_hook, undefined, ValidationError
 
 TOL = 1e-9
 
@@ -571,13 +571,16 @@ class DynamicProperty(GettableProperty):                                       #
             value = scope.func(self)
             if value is None or value is undefined:
                 return None
-            return scope.validate(self, value)
+            with single_error_hook(self):
+                return scope.validate(self, value)
 
         def fset(self, value):
             """Validate and call setter"""
             if scope.set_func is None:
                 raise AttributeError('cannot set attribute')
-            scope.set_func(self, scope.validate(self, value))
+            with single_error_hook(self):
+                value = scope.validate(self, value)
+            scope.set_func(self, value)
 
         def fdel(self):
             """call deleter"""
@@ -677,7 +680,8 @@ class Property(GettableProperty):
         def fset(self, value):
             """Validate value and call the HasProperties _set method"""
             if value is not undefined:
-                value = scope.validate(self, value)
+                with single_error_hook(self):
+                    value = scope.validate(self, value)
             self._set(scope.name, value)
 
         def fdel(self):
diff --git a/properties/utils.py b/properties/utils.py
index bcb688d..a58375d 100644
--- a/properties/utils.py
+++ b/properties/utils.py
@@ -5,6 +5,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 from collections import namedtuple
+from contextlib import contextmanager
 from functools import wraps
 from warnings import warn
 
@@ -161,10 +162,39 @@ class ValidationError(ValueError):
             self.error_tuples = _error_tuples
             if reason or prop or instance:
                 self.error_tuples.append(error_tuple)
-        if not getattr(instance, '_getting_validated', True):
+        if (
+                not getattr(instance, '_getting_validated', True) and
+                not getattr(instance, '_getting_assigned', False)
+        ):
             instance._error_hook(self.error_tuples)                           #pylint: disable=protected-access
 
 
+@contextmanager
+def single_error_hook(instance):
+    """Call the error hook once, with the error that leaves this context
+
+    Properties may try several alternatives to validate one value, or
+    explain an error by another error. In this context these do not reach
+    the :code:`instance._error_hook` method.
+    """
+    if (
+            getattr(instance, '_getting_validated', True) or
+            getattr(instance, '_getting_assigned', False)
+    ):
+        yield
+        return
+    instance._getting_assigned = True                                          #pylint: disable=protected-access
+    try:
+        yield
+    except ValidationError as err:
+        instance._getting_assigned = False                                     #pylint: disable=protected-access
+        if any(tup.instance is instance for tup in err.error_tuples):
+            instance._error_hook(err.error_tuples)                             #pylint: disable=protected-access
+        raise
+    finally:
+        instance._getting_assigned = False                                     #pylint: disable=protected-access
+
+
 class Sentinel(object):                                                        #pylint: disable=too-few-public-methods
     """Basic object with name and doc for specifying singletons
 
-- 
2.43.0


From 0b557924117191385210efafe0b2e7049380097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 42/53] fix: file names that open() cannot take raise a
 ValidationError

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 2479539..ba3233f 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1402,7 +1402,7 @@ class File(Property):
         if isinstance(value, string_types) and self.mode is not None:
             try:
                 value = open(value, self.mode)
-            except (IOError, TypeError):
+            except (IOError, TypeError, ValueError):
                 self.error(instance, value,
                            extra='Cannot open file: {}'.format(value))
         if not all([hasattr(value, attr) for attr in ('read', 'seek')]):
-- 
2.43.0


From c8432b68bbe0b1213caccb8b48b7552c842872ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 43/53] fix: File properties with mode 'wb+' accept files
 opened in that mode

---
 properties/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index ba3233f..9ba9af4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1409,6 +1409,9 @@ class File(Property):
             self.error(instance, value, extra='Not a file-like object')
         if not hasattr(value, 'mode') or self.valid_modes is None:
             pass
+        elif value.mode == 'rb+' and 'wb+' in self.valid_modes:
+            # Files opened with mode 'wb+' report mode 'rb+'
+            pass
         elif value.mode not in self.valid_modes:
             self.error(instance, value,
                        extra='Invalid mode: {}'.format(value.mode))
-- 
2.43.0


From 470d5ec0ee596501f2a2991ca9e38fdb1d2c978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 44/53] fix: PNG signatures are looked for at the start of the
 file

---
 properties/images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..e37dac3 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -63,9 +63,10 @@ class ImagePNG(File):
             pass
         else:
             value = super(ImagePNG, self).validate(instance, value)
+            value.seek(0)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From d562a66d1c0a7f23cb00cc89b9bf85b6c4388218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 45/53] fix: closed PNG images are not valid

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e37dac3..71d4b69 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -57,7 +57,7 @@ class ImagePNG(File):
         """
         # Pass if already validated
         if getattr(value, '__valid__', False):
-            return value
+            return super(ImagePNG, self).validate(instance, value)
         # Validate that value is PNG
         if isinstance(value, png.Image):
             pass
-- 
2.43.0


From 6bf5635b6a2e46435824ee02f0d043642d83d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 46/53] fix: URL properties have a description

---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From 45f6548a89e5dbd69607526b701410b3bd79f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 47/53] fix: pointers that hold a UID remain valid when its
 instance appears

---
 properties/extras/uid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 34963ce..3ecbd1f 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -281,6 +281,15 @@ class Pointer(base.Instance):
             return super(Pointer, self).validate(instance, instance_value)
         return value
 
+    def assert_valid(self, instance, value=None):
+        """UIDs remain valid when they can be loaded after they were set"""
+        if value is None:
+            value = instance._get(self.name)
+        if isinstance(value, string_types) and self.load:
+            if not isinstance(self.validate(instance, value), string_types):
+                return True
+        return super(Pointer, self).assert_valid(instance, value)
+
     def deserialize(self, value, **kwargs):
         """Deserialize instance from JSON value
 
-- 
2.43.0


From e5a291105a824b58e259a1be52d8d5a84874904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 48/53] fix: class documentation is the same with optimized
 bytecode

---
 properties/basic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 9ba9af4..3a28785 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -359,11 +359,11 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
     def sphinx(self):
         """Generate Sphinx-formatted documentation for the Property"""
         try:
-            assert __IPYTHON__
-            classdoc = ''
-        except (NameError, AssertionError):
-            scls = self.sphinx_class()
-            classdoc = ' ({})'.format(scls) if scls else ''
+            in_ipython = bool(__IPYTHON__)
+        except NameError:
+            in_ipython = False
+        scls = '' if in_ipython else self.sphinx_class()
+        classdoc = ' ({})'.format(scls) if scls else ''
 
         prop_doc = '**{name}**{cls}: {doc}{info}'.format(
             name=self.name,
-- 
2.43.0


From f62349e68debf1f7010213c4ad158e31dd73fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 49/53] fix: validated named tuples remain named tuples

---
 properties/base/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 766381e..e42d26f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -278,7 +278,7 @@ class Tuple(basic.Property):
                 out += [self.prop.validate(instance, val)]
             except ValueError:
                 self.error(instance, val, extra='This item is invalid.')
-        return out_class(out)
+        return getattr(out_class, '_make', out_class)(out)
 
     def assert_valid(self, instance, value=None):
         """Check if tuple and contained properties are valid"""
-- 
2.43.0


From 978726cb4639bba86349ede97e815d36d6614539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 50/53] fix: array equality does not depend on the order of
 operands

---
 properties/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index bc0f9db..e576a6c 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -173,7 +173,11 @@ class Array(Property):
             nan_mask = ~np.isnan(value_a)
             if not np.array_equal(nan_mask, ~np.isnan(value_b)):
                 return False
-            return np.allclose(value_a[nan_mask], value_b[nan_mask], atol=TOL)
+            value_a, value_b = value_a[nan_mask], value_b[nan_mask]
+            return (
+                np.allclose(value_a, value_b, atol=TOL) or
+                np.allclose(value_b, value_a, atol=TOL)
+            )
         except TypeError:
             return False
 
-- 
2.43.0


From f246e7ceb2d45ef2a4856665c24660f632448009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:23 +0000
Subject: [PATCH 51/53] fix: vectors of very large or very small numbers get
 the required length

---
 properties/math.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index e576a6c..cfb88ac 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -293,6 +293,13 @@ class BaseVector(Array):
         if self.length is not None:
             if not self.coerce:
                 value = value.copy()
+            array = value.view(np.ndarray)
+            biggest = np.max(np.abs(array), axis=-1, keepdims=True)
+            if np.any(np.isinf(biggest)):
+                self.error(instance, value, extra='Length must be finite.')
+            # The squares of these numbers are beyond the range of floats
+            extreme = (biggest > 1e100) | ((biggest < 1e-100) & (biggest > 0))
+            array /= np.where(extreme, biggest, 1)
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 262ba6caf3ca76428551737d91d8a43e702a7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 52/53] fix: datetimes with a time zone are serialized in UTC

---
 properties/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 3a28785..47375de 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1275,6 +1275,9 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
+        offset = value.utcoffset()
+        if offset is not None:
+            value = value.replace(tzinfo=None) - offset
         return value.replace(microsecond=0, tzinfo=None).isoformat() + 'Z'
 
     @staticmethod
-- 
2.43.0


From 7a65e6822e31014b095326753ffb32f74453bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 53/53] fix: properties without a type of their own hold arrays
 of any shape

---
 properties/base/instance.py |  2 ++
 properties/basic.py         | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index a2560c3..d4e50e1 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -159,6 +159,8 @@ class Instance(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
+        if not isinstance(value_a, HasProperties):
+            return super(Instance, self).equal(value_a, value_b)
         return equal(value_a, value_b)
 
     @staticmethod
diff --git a/properties/basic.py b/properties/basic.py
index 47375de..bc67a6c 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -53,6 +53,13 @@ def accept_kwargs(func):
     return wrapped
 
 
+def all_true(equal):
+    """Reduce the result of a comparison, possibly an array, to one value"""
+    if hasattr(equal, '__iter__'):
+        return all(all_true(item) for item in equal)
+    return equal
+
+
 class ArgumentWrangler(type):
     """Stores arguments to Property initialization for later use"""
 
@@ -269,10 +276,11 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
-        equal = value_a == value_b
-        if hasattr(equal, '__iter__'):
-            return all(equal)
-        return equal
+        try:
+            return all_true(value_a == value_b)
+        except ValueError:
+            # Arrays of different shapes, or nested in other containers
+            return False
 
     def get_property(self):
         """Establishes access of GettableProperty values"""
-- 
2.43.0

