From b584c34b2dced2e183c7f79f03fdc96ae3d53e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 01/29] fix: a refused combining algorithm id leaves the
 policy's id unchanged

---
 ndg/xacml/core/policy.py    | 8 +++++++-
 ndg/xacml/core/policyset.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/policy.py b/ndg/xacml/core/policy.py
index caaf380..a6454ab 100644
--- a/ndg/xacml/core/policy.py
+++ b/ndg/xacml/core/policy.py
@@ -255,8 +255,14 @@ class Policy(PolicyBase):
             raise TypeError('Expecting string type for "ruleCombiningAlgId" '
                             'attribute; got %r' % type(value))
             
+        # A refused identifier must not replace the one in use
+        previousId = self.__ruleCombiningAlgId
         self.__ruleCombiningAlgId = value
-        self._setRuleCombiningAlgFromId()
+        try:
+            self._setRuleCombiningAlgFromId()
+        except Exception:
+            self.__ruleCombiningAlgId = previousId
+            raise
         
     def _setRuleCombiningAlgFromId(self):
         """Set the rule combining algorithm implementation from the Id set in
diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 7cc9030..3a5e1d9 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -246,8 +246,14 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting string type for "policyCombiningAlgId" '
                             'attribute; got %r' % type(value))
 
+        # A refused identifier must not replace the one in use
+        previousId = self.__policyCombiningAlgId
         self.__policyCombiningAlgId = value
-        self._setPolicyCombiningAlgFromId()
+        try:
+            self._setPolicyCombiningAlgFromId()
+        except Exception:
+            self.__policyCombiningAlgId = previousId
+            raise
 
     def _setPolicyCombiningAlgFromId(self):
         """Set the policy combining algorithm implementation from the Id set in
-- 
2.43.0


From a35b491c6e64721ec049140fa3fbd07d79b596d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 02/29] fix: a refused match or function id leaves the
 element's id unchanged

---
 ndg/xacml/core/apply.py | 8 +++++++-
 ndg/xacml/core/match.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/apply.py b/ndg/xacml/core/apply.py
index b43637b..c343dd2 100644
--- a/ndg/xacml/core/apply.py
+++ b/ndg/xacml/core/apply.py
@@ -98,11 +98,17 @@ class Apply(Expression):
             raise TypeError('Expecting %r type for "functionId" '
                             'attribute; got %r' % (str, type(value)))
             
+        # A refused identifier must not replace the one in use
+        previousId = self.__functionId
         self.__functionId = value
         
         # Also retrieve function for this function ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)   
+            except Exception:
+                self.__functionId = previousId
+                raise
 
     functionId = property(_get_functionId, _set_functionId, None, 
                           "Apply type Function ID") 
diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index de267f2..1287a78 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -176,11 +176,17 @@ class MatchBase(XacmlCoreBase):
             raise TypeError('Expecting string type for "matchId" '
                             'attribute; got %r' % type(value))
             
+        # A refused identifier must not replace the one in use
+        previousId = self.__matchId
         self.__matchId = value
         
         # Also retrieve function for this match ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)   
+            except Exception:
+                self.__matchId = previousId
+                raise
 
     matchId = property(_getMatchId, _setMatchId, None, 
                        "Match identifier for match function")
-- 
2.43.0


From 607991078e32104d173359c9e732b130b1df66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 03/29] fix: a condition whose value is not boolean is an
 error, not a true condition

---
 ndg/xacml/core/condition.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndg/xacml/core/condition.py b/ndg/xacml/core/condition.py
index fde03c8..edf0ab7 100644
--- a/ndg/xacml/core/condition.py
+++ b/ndg/xacml/core/condition.py
@@ -10,6 +10,8 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core import XacmlCoreBase
+from ndg.xacml.core.attributevalue import AttributeValue
+from ndg.xacml.core.context.exceptions import XacmlContextTypeError
 from ndg.xacml.core.expression import Expression
 
 
@@ -68,5 +70,12 @@ class Condition(XacmlCoreBase):
         @rtype: bool
         """
         result = self.expression.evaluate(context)
+        if isinstance(result, AttributeValue):
+            result = result.value
+            
+        if not isinstance(result, bool):
+            raise XacmlContextTypeError('Expecting %r type for condition '
+                                        'result; got %r' % 
+                                        (bool, type(result)))
         
         return result
\ No newline at end of file
-- 
2.43.0


From e2dd89daba29fb74a01cead0510f5b8ad6f3c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 04/29] fix: keep every item when a TypedList is extended from
 an iterator

---
 ndg/xacml/utils/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..d12b721 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -85,12 +85,13 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
-        for i in iter:
+        items = list(iter)
+        for i in items:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
                                 (self.__elementType,))
                 
-        return super(TypedList, self).extend(iter)
+        return super(TypedList, self).extend(items)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
@@ -98,12 +99,13 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
-        for i in iter:
+        items = list(iter)
+        for i in items:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
                                 (self.__elementType,))
                     
-        return super(TypedList, self).__iadd__(iter)
+        return super(TypedList, self).__iadd__(items)
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From e8b11f901598c1988009f5dbc8a52709c8d8a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 05/29] fix: do not add duplicates within one batch to a
 UniqList

---
 ndg/xacml/utils/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index d12b721..5dd7335 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -25,15 +25,24 @@ class UniqList(list):
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        items = []
+        for i in iter:
+            if i not in self and i not in items:
+                items.append(i)
+
+        return super(UniqList, self).extend(items)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        items = []
+        for i in iter:
+            if i not in self and i not in items:
+                items.append(i)
+
+        return super(UniqList, self).__iadd__(items)
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From 614ec95789566943a188e6343b73a332ca00fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 06/29] fix: return the default given to VettedDict.get for a
 missing key

---
 ndg/xacml/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 5dd7335..86de515 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -251,9 +251,9 @@ class VettedDict(MutableMapping):
         if key in self.__map:
             return self.__map[key]
         
-        elif len(arg) > 1:
+        elif len(arg) > 0:
             # Default value set
-            return arg[1]
+            return arg[0]
         else:
             return None
           
-- 
2.43.0


From f5baa77c59d9aeb4e61752d3814364180dc79f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 07/29] fix: report the unknown key in
 RestrictedKeyNamesDict.update

---
 ndg/xacml/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 86de515..950d706 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -163,7 +163,7 @@ class RestrictedKeyNamesDict(dict):
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
         
-- 
2.43.0


From aeb2d903597c1c7b0f17752d0f4305141125fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 08/29] fix: shared Decision and Effect constants are read-only
 as documented

The value property was bound to the base class setter, so that the overrides
in PermitDecision etc. never applied: setting the value of a decision or an
effect that holds a constant changed the constant for the whole process.
---
 ndg/xacml/core/context/result.py | 11 ++++++++---
 ndg/xacml/core/rule.py           |  9 +++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..20bf710 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,9 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        
+        # Explicit base class call: the constants' setter is read-only
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -368,7 +370,10 @@ class Decision(object):
         """
         return self.__value
     
-    value = property(fget=_getValue, fset=_setValue, doc="Decision value")
+    # Look the setter up on the instance's class: the constants override it
+    value = property(fget=_getValue, 
+                     fset=lambda self, value: self._setValue(value), 
+                     doc="Decision value")
     
     def __str__(self):
         """represent decision as a string
@@ -421,7 +426,7 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..d905ba4 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,9 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        
+        # Explicit base class call: the constants' setter is read-only
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -101,7 +103,10 @@ class Effect(object):
         """
         return self.__value
     
-    value = property(fget=_getValue, fset=_setValue, doc="Effect value")
+    # Look the setter up on the instance's class: the constants override it
+    value = property(fget=_getValue, 
+                     fset=lambda self, value: self._setValue(value), 
+                     doc="Effect value")
     
     def __str__(self):
         """represent decision as a string
-- 
2.43.0


From 02162b872ce0cb0c0cb5e9e45f242283a1602bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 09/29] fix: comparing a decision or an effect with a foreign
 type raises TypeError

The message of the documented TypeError used a variable not set at that point,
so that UnboundLocalError was raised instead.
---
 ndg/xacml/core/context/result.py | 3 ++-
 ndg/xacml/core/obligation.py     | 3 ++-
 ndg/xacml/core/rule.py           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 20bf710..5828555 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -409,7 +409,8 @@ class Decision(object):
             
         else:
             raise TypeError('Expecting string or Decision instance for '
-                            'input decision value; got %r instead' % type(value))
+                            'input decision value; got %r instead' % 
+                            type(decision))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable decision types are %r; got '
diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index 13c6f7f..d889312 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -130,7 +130,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % 
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index d905ba4..cef3501 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -134,7 +134,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % 
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From f252335cabf645cc651b92f3b50777e0d2389dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 10/29] fix: a function factory makes classes only for the
 identifiers it lists

---
 ndg/xacml/core/functions/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 0a62e6e..ed02f7d 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -503,6 +503,11 @@ class FunctionClassFactoryBase(FunctionClassFactoryInterface):
         # Check the cache first
         functionClass = self.__map.get(identifier)
         if functionClass is None:
+            # Only the identifiers listed name a function of this family: e.g.
+            # ...:String-equal does not
+            if identifier not in self.__class__.FUNCTION_NAMES:
+                return None
+            
             # No class set in the cache - try loading the new class and updating
             # the cache.
             self.loadFunction(identifier)
-- 
2.43.0


From 8e271ab59f81a85f67be4a8c7ce2099ef1475558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 11/29] fix: list url-string-concatenate among the standard
 functions so that it cannot be replaced

---
 ndg/xacml/core/functions/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index ed02f7d..b3fd8a3 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -193,6 +193,7 @@ class XacmlFunctionNames(object):
 'urn:oasis:names:tc:xacml:1.0:function:rfc822Name-bag',
 'urn:oasis:names:tc:xacml:2.0:function:string-concatenate',
 'urn:oasis:names:tc:xacml:2.0:function:uri-string-concatenate',
+'urn:oasis:names:tc:xacml:2.0:function:url-string-concatenate',
 'urn:oasis:names:tc:xacml:1.0:function:any-of',
 'urn:oasis:names:tc:xacml:1.0:function:all-of',
 'urn:oasis:names:tc:xacml:1.0:function:any-of-any',
-- 
2.43.0


From 282b0e621dcc5905d3ea82793329bcb57a68095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 12/29] fix: the child status code of a status code can be set
 and read

---
 ndg/xacml/core/context/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 5828555..1cc4249 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -85,9 +85,9 @@ class StatusCode(XacmlContextBase):
             
         self.__childStatusCode = value
 
-    value = property(fget=_getStatusCode, 
-                     fset=_setStatusCode, 
-                     doc="Child Status code")
+    statusCode = property(fget=_getStatusCode, 
+                          fset=_setStatusCode, 
+                          doc="Child Status code")
               
     def _getValue(self):
         '''@return: status code value
-- 
2.43.0


From ce8718198ff5ca05c2ff1a173d67e535c95e5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 13/29] fix: take the base path of a default policy finder from
 a file object

---
 ndg/xacml/finder/defaultfinder.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..ed07483 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -30,8 +30,11 @@ def getDefaultPolicyFinder(source):
     if isinstance(source, str):
         if os.path.exists(source):
             basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+    else:
+        # File object: Python 3 has no common file type but those with a path
+        # give it as their name
+        name = getattr(source, 'name', None)
+        if isinstance(name, str) and os.path.exists(name):
+            basePath = os.path.dirname(name)
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From 3d167cdeab96be6bff178640191cfcf469d3aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 14/29] fix: give a rule without a description one of None

---
 ndg/xacml/core/rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index cef3501..18f1a3b 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -231,6 +231,7 @@ class Rule(XacmlCoreBase):
         self.__effect = None
         self.__target = None
         self.__condition = None
+        self.__description = None
         
     @property
     def target(self):
-- 
2.43.0


From 8a56126ceb52d9619894a9a09488bb29e5f60d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 15/29] fix: read the whole text of an element, and refuse
 elements in it

---
 ndg/xacml/parsers/etree/__init__.py           | 21 +++++++++++++++++++
 .../parsers/etree/attributevaluereader.py     |  7 ++++---
 .../parsers/etree/policydefaultsreader.py     |  4 ++--
 ndg/xacml/parsers/etree/policyreader.py       |  8 ++++---
 ndg/xacml/parsers/etree/policysetreader.py    | 12 ++++++-----
 ndg/xacml/parsers/etree/rulereader.py         |  8 ++++---
 6 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..08d24d6 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -14,6 +14,7 @@ log = logging.getLogger(__name__)
 import re
 
 from ndg.xacml import Config, importElementTree
+from ndg.xacml.parsers import XMLParseError
 ElementTree = importElementTree()
 
 class SerialisedElementTree(str):
@@ -67,6 +68,26 @@ def getElementChildren(element):
         yield childElem
 
 
+def getElementText(element):
+    """Text content of an element, including any which follows a comment or
+    processing instruction within it.
+
+    @return: text or None if there is none
+    @rtype: basestring / NoneType
+    @raise XMLParseError: the element has child elements
+    """
+    for childElem in getElementChildren(element):
+        raise XMLParseError("Child element %r not expected in element %r" %
+                            (childElem.tag, element.tag))
+
+    text = element.text
+    for childNode in element:
+        if childNode.tail is not None:
+            text = childNode.tail if text is None else text + childNode.tail
+
+    return text
+
+
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
     """Extend ElementTree implementation for improved attribute access support
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 08903c1..43c4e6a 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,11 +90,12 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
-        if elem.text is None:
+        text = getElementText(elem)
+        if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
                                 AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME) 
             
-        attributeValue.value = elem.text
+        attributeValue.value = text
 
         
 class ETreeDataTypeReaderClassMap(VettedDict):
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index b4b4ba0..5851d85 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -11,7 +11,7 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -54,7 +54,7 @@ class PolicyDefaultsReader(ETreeAbstractReader):
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = elem[0].text 
+        xpathVersion = getElementText(elem[0])
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 1031de4..5615726 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.rule import Rule
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
     
@@ -104,8 +105,9 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policy.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policy.description = description.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..a2a423c 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -88,8 +89,9 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policySet.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policySet.description = description.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
@@ -122,7 +124,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
-                policyIdReference = childElem.text
+                policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
 
@@ -132,7 +134,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
-                policySetIdReference = childElem.text
+                policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 5fdcce6..3822e64 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -13,7 +13,8 @@ from ndg.xacml.core.rule import Rule, Effect
 from ndg.xacml.core.condition import Condition
 from ndg.xacml.core.target import Target
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -66,8 +67,9 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    rule.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
                 ConditionReader = ReaderFactory.getReader(Condition)
-- 
2.43.0


From 333166f86aa8f27a5f56b283f280b012d78787f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 16/29] fix: refuse child elements of attribute designators and
 selectors

---
 ndg/xacml/parsers/etree/expressionreader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/expressionreader.py b/ndg/xacml/parsers/etree/expressionreader.py
index 15d0d62..f219631 100644
--- a/ndg/xacml/parsers/etree/expressionreader.py
+++ b/ndg/xacml/parsers/etree/expressionreader.py
@@ -13,7 +13,7 @@ from abc import abstractmethod
 
 from ndg.xacml.core.expression import Expression
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -56,6 +56,12 @@ class ExpressionReader(ETreeAbstractReader):
             attributeValues.append(attributeValue)
              
         expression.dataType, = attributeValues
+
+        for childElem in getElementChildren(elem):
+            raise XMLParseError("XACML %s child element name %r not recognised"
+                                % (xacmlType.ELEMENT_LOCAL_NAME,
+                                   QName.getLocalPart(childElem.tag)))
+
                    
         self._parseExtension(elem, expression)
         
-- 
2.43.0


From 6ca4e42c82ff19acffd7c2a9c0ba720aaf628f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 17/29] fix: allow comments in policy defaults

---
 ndg/xacml/parsers/etree/policydefaultsreader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index 5851d85..9916f47 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -11,7 +11,8 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementText
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -44,17 +45,18 @@ class PolicyDefaultsReader(ETreeAbstractReader):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
-        if len(elem) != 1:
+        childElems = list(getElementChildren(elem))
+        if len(childElems) != 1:
             raise XMLParseError('Expecting a single child element for '
                                 'PolicyDefaults element')
             
-        if (QName.getLocalPart(elem[0].tag) != 
+        if (QName.getLocalPart(childElems[0].tag) != 
             xacmlType.XPATH_VERSION_ELEMENT_NAME):
             raise XMLParseError('Expecting a %r child element for '
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = getElementText(elem[0])
+        xpathVersion = getElementText(childElems[0])
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
-- 
2.43.0


From dd20b4016e1b86a385c20e5250e4029113fa6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 18/29] fix: refuse a second child element where only one is
 allowed

---
 ndg/xacml/parsers/etree/matchreader.py     |  2 ++
 ndg/xacml/parsers/etree/policyreader.py    |  3 +++
 ndg/xacml/parsers/etree/policysetreader.py |  2 ++
 ndg/xacml/parsers/etree/reader.py          | 17 ++++++++++++++++-
 ndg/xacml/parsers/etree/rulereader.py      |  3 +++
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 9470afc..12040b3 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -97,6 +97,7 @@ class MatchReaderBase(ETreeAbstractReader):
                              attributeDesignatorType.ELEMENT_LOCAL_NAME,
                              AttributeSelector.ELEMENT_LOCAL_NAME))
                     
+                self._checkNotSet(match.attributeDesignator, localName)
                 match.attributeDesignator = attributeDesignatorReaderType.parse(
                                                             childElem, common)
                         
@@ -108,6 +109,7 @@ class MatchReaderBase(ETreeAbstractReader):
                              attributeDesignatorType.ELEMENT_LOCAL_NAME,
                              AttributeSelector.ELEMENT_LOCAL_NAME))
                     
+                self._checkNotSet(match.attributeSelector, localName)
                 AttributeSelectorReader = ReaderFactory.getReader(
                                                             AttributeSelector)
                 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 5615726..f3f49d5 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -105,16 +105,19 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
+                self._checkNotSet(policy.description, localName)
                 description = getElementText(childElem)
                 if description is not None:
                     policy.description = description.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
+                self._checkNotSet(policy.policyDefaults, localName)
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
                 policy.policyDefaults = PolicyDefaultsReader.parse(childElem,
                                                                    common)
                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                self._checkNotSet(policy.target, localName)
                 TargetReader = ReaderFactory.getReader(Target)
                 policy.target = TargetReader.parse(childElem, common)
              
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index a2a423c..8b4665c 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -89,6 +89,7 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
+                self._checkNotSet(policySet.description, localName)
                 description = getElementText(childElem)
                 if description is not None:
                     policySet.description = description.strip()
@@ -99,6 +100,7 @@ class PolicySetReader(ETreeAbstractReader):
                                                                       common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                self._checkNotSet(policySet.target, localName)
                 TargetReader = ReaderFactory.getReader(Target)
                 policySet.target = TargetReader.parse(childElem, common)
 
diff --git a/ndg/xacml/parsers/etree/reader.py b/ndg/xacml/parsers/etree/reader.py
index c2e7c80..8e515dd 100644
--- a/ndg/xacml/parsers/etree/reader.py
+++ b/ndg/xacml/parsers/etree/reader.py
@@ -16,7 +16,7 @@ from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
 from ndg.xacml.core import XacmlPolicyBase
-from ndg.xacml.parsers import AbstractReader
+from ndg.xacml.parsers import AbstractReader, XMLParseError
 
 
 class ETreeAbstractReader(AbstractReader):
@@ -60,6 +60,21 @@ class ETreeAbstractReader(AbstractReader):
             elem = ElementTree.parse(obj).getroot()
             
         return elem
+
+    @staticmethod
+    def _checkNotSet(value, localName):
+        """Check that a child element which may occur only once has not been
+        read already
+
+        @param value: value read from a previous child element or None
+        @type value: any
+        @param localName: local name of the child element
+        @type localName: string
+        @raise XMLParseError: child element occurs more than once
+        """
+        if value is not None:
+            raise XMLParseError("More than one %r child element found" %
+                                localName)
          
 # Set up new class as an abstract base itself             
 AbstractReader.register(ETreeAbstractReader)
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 3822e64..9df12e1 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -67,15 +67,18 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
+                self._checkNotSet(rule.description, localName)
                 description = getElementText(childElem)
                 if description is not None:
                     rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
+                self._checkNotSet(rule.condition, localName)
                 ConditionReader = ReaderFactory.getReader(Condition)
                 rule.condition = ConditionReader.parse(childElem, common)
                                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                self._checkNotSet(rule.target, localName)
                 TargetReader = ReaderFactory.getReader(Target)
                 rule.target = TargetReader.parse(childElem, common)
             
-- 
2.43.0


From 11ea04c56fa7b508ead5198fb59f53ffd6ca61ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 19/29] fix: read policy set defaults

---
 ndg/xacml/parsers/etree/policydefaultsreader.py | 5 ++++-
 ndg/xacml/parsers/etree/policysetreader.py      | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index 9916f47..beb676e 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -10,6 +10,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
+from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.parsers import XMLParseError
 from ndg.xacml.parsers.etree import (QName, getElementChildren,
                                       getElementText)
@@ -41,7 +42,9 @@ class PolicyDefaultsReader(ETreeAbstractReader):
         policyDefaults = xacmlType()
         
         localName = QName.getLocalPart(elem.tag)
-        if localName != xacmlType.ELEMENT_LOCAL_NAME:
+        # Policy set defaults are of the same type
+        if localName not in (xacmlType.ELEMENT_LOCAL_NAME,
+                             PolicySet.POLICY_SET_DEFAULTS_LOCAL_NAME):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index 8b4665c..7104d94 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -95,9 +95,10 @@ class PolicySetReader(ETreeAbstractReader):
                     policySet.description = description.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
+                self._checkNotSet(policySet.policySetDefaults, localName)
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
-                policySet.policyDefaults = PolicyDefaultsReader.parse(childElem,
-                                                                      common)
+                policySet.policySetDefaults = PolicyDefaultsReader.parse(
+                                                            childElem, common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
                 self._checkNotSet(policySet.target, localName)
-- 
2.43.0


From 76a553bc70a88fe7231984bf430c5f8450ddc2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 20/29] fix: policy and policy set can be read from a source

---
 ndg/xacml/core/policy.py     | 21 ++++++++-------------
 ndg/xacml/core/policybase.py |  3 ++-
 ndg/xacml/core/policyset.py  | 19 +++++++------------
 3 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/ndg/xacml/core/policy.py b/ndg/xacml/core/policy.py
index a6454ab..5f1dd8b 100644
--- a/ndg/xacml/core/policy.py
+++ b/ndg/xacml/core/policy.py
@@ -13,7 +13,7 @@ import logging
 log = logging.getLogger(__name__)
 
 from ndg.xacml.utils import TypedList
-from ndg.xacml.parsers import AbstractReaderFactory, AbstractReader
+from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.target import Target
@@ -173,7 +173,7 @@ class Policy(PolicyBase):
         return self.__ruleCombiningAlg
     
     @classmethod
-    def fromSource(cls, source, readerFactory):
+    def fromSource(cls, source, readerFactory, finder=None):
         """Create a new policy from the input source parsing it using a 
         reader from the required reader factory e.g. ETreeReaderFactory to use
         ElementTree based parsing
@@ -184,20 +184,15 @@ class Policy(PolicyBase):
         @param readerFactory: factory class returns reader class used to parse 
         the policy
         @type readerFactory: ndg.xacml.parsers.AbstractReaderFactory
+        @param finder: policy finder, defaults to the one for the input source
+        @type finder: ndg.xacml.finder.PolicyFinderBase subclass / None
         @return: new policy instance
         @rtype: ndg.xacml.core.policy.Policy
         """
-        if not issubclass(readerFactory, AbstractReaderFactory):
-            raise TypeError('Expecting %r derived class for reader factory '
-                            'method; got %r' % (AbstractReaderFactory, 
-                                                readerFactory))
-            
-        reader = readerFactory.getReader(cls)
-        if not issubclass(reader, AbstractReader):
-            raise TypeError('Expecting %r derived class for reader class; '
-                            'got %r' % (AbstractReader, reader))
-            
-        return reader.parse(source)
+        if finder is None:
+            finder = getDefaultPolicyFinder(source)
+
+        return super(Policy, cls).fromSource(source, readerFactory, finder)
         
     def _getPolicyId(self):
         '''
diff --git a/ndg/xacml/core/policybase.py b/ndg/xacml/core/policybase.py
index 5dd5bee..6cbb445 100644
--- a/ndg/xacml/core/policybase.py
+++ b/ndg/xacml/core/policybase.py
@@ -73,7 +73,8 @@ class PolicyBase(XacmlCoreBase, metaclass=ABCMeta):
         if not isinstance(finder, PolicyFinderBase):
             raise TypeError('Expecting %r derived object for policy finder; '
                             'got %r' % (PolicyFinderBase, type(finder)))
-        finder.setReader(reader)
+        # A nested source may be a policy or a policy set whichever this one is
+        finder.setReader(readerFactory.getReader(PolicyBase))
 
         common = Common(finder)
         return reader.parse(source, common)
diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 3a5e1d9..da16407 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -14,7 +14,7 @@ import logging
 log = logging.getLogger(__name__)
 
 from ndg.xacml.utils import TypedList
-from ndg.xacml.parsers import AbstractReaderFactory, AbstractReader
+from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.target import Target
@@ -131,7 +131,7 @@ class PolicySet(PolicyBase):
         self.__policyCombiningAlg = None
 
     @classmethod
-    def fromSource(cls, source, readerFactory):
+    def fromSource(cls, source, readerFactory, finder=None):
         """Create a new policy from the input source parsing it using a
         reader from the required reader factory e.g. ETreeReaderFactory to use
         ElementTree based parsing
@@ -142,20 +142,15 @@ class PolicySet(PolicyBase):
         @param readerFactory: factory class returns reader class used to parse
         the policy
         @type readerFactory: ndg.xacml.parsers.AbstractReaderFactory
+        @param finder: policy finder, defaults to the one for the input source
+        @type finder: ndg.xacml.finder.PolicyFinderBase subclass / None
         @return: new policy instance
         @rtype: ndg.xacml.core.policy.Policy
         """
-        if not issubclass(readerFactory, AbstractReaderFactory):
-            raise TypeError('Expecting %r derived class for reader factory '
-                            'method; got %r' % (AbstractReaderFactory,
-                                                readerFactory))
+        if finder is None:
+            finder = getDefaultPolicyFinder(source)
 
-        reader = readerFactory.getReader(cls)
-        if not issubclass(reader, AbstractReader):
-            raise TypeError('Expecting %r derived class for reader class; '
-                            'got %r' % (AbstractReader, reader))
-
-        return reader.parse(source)
+        return super(PolicySet, cls).fromSource(source, readerFactory, finder)
 
     def _getPolicyCombiningAlgFactory(self):
         """
-- 
2.43.0


From e15becacf6be7205a0f4bd9a5b40c087a881977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 21/29] fix: take the base path of references as a path from
 the current directory, quoted for a URL

---
 ndg/xacml/finder/urlpolicyfinder.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index 72b8bad..5474960 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -10,6 +10,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 import os
+from urllib.request import pathname2url
 
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
@@ -115,16 +116,22 @@ class UrlPolicyFinder(PolicyFinderBase):
         @return: URL
         @rtype: str
         """
+        # Base path as it appears in a file URL
+        if self.basePath is None:
+            basePath = None
+        else:
+            basePath = pathname2url(os.path.abspath(self.basePath))
+
         # See if reference looks like a URL for a known scheme.
         if reference.startswith(self._FILE_SCHEME):
             path = reference[len(self._FILE_SCHEME):]
             if path.startswith(self._RELATIVE_PATH_PREFIX):
                 # Relative path - convert to absolute.
                 path = path[len(self._RELATIVE_PATH_PREFIX):]
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._FILE_SCHEME + os.path.join(basePath, path)
             elif not path.startswith(os.path.sep):
                 # Relative path - convert to absolute.
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._FILE_SCHEME + os.path.join(basePath, path)
             else:
                 url = reference
         elif [True for scheme in self._NON_FILE_SCHEMES
@@ -136,5 +143,5 @@ class UrlPolicyFinder(PolicyFinderBase):
                 url = self._DEFAULT_SCHEME + reference
             else:
                 url = (self._DEFAULT_SCHEME +
-                       os.path.join(self.basePath, reference))
+                       os.path.join(basePath, reference))
         return url
-- 
2.43.0


From acd01692cd468f7f2fb9271172c4ede8af6462f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 22/29] fix: read the match elements and designators of
 environments

---
 .../environmentattributedesignatorreader.py   | 23 +++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 29 +++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..e521f34
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,23 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "19/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase): 
+    '''ElementTree based XACML Environment Attribute Designator type parser
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
\ No newline at end of file
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..40290e2
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,29 @@
+"""NDG XACML ElementTree based reader for environment match type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+        
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: type
+    
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type of attribute designator that this 
+    match type holds
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
+    
-- 
2.43.0


From c96186ea6b2368d0c04d1f146de14c9117026500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 23/29] fix: read attributes without children from ElementTree
 elements

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..cde71f0 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if len(list(getElementChildren(elem))) == 0:
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From 6f20d16986e2de2ac561785d6c3f474c58817e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 24/29] fix: write the category of subjects

---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cde71f0..2c23da6 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -141,6 +141,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From 534a4b1cf2b9889a632b1447f83269a6c6572e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 25/29] fix: write the resource id of results

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2c23da6..5d25a42 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -515,7 +515,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From 8df09fab3497964f5830d588ab3098f62ba20a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 26/29] fix: read empty and comment-split attribute values and
 decisions

---
 ndg/xacml/parsers/etree/context.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 5d25a42..7e925b1 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -28,7 +28,8 @@ from ndg.xacml.core.context.result import Decision, Result
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 
 
 class RequestElementTree(Request):
@@ -427,7 +428,9 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                # An empty element states an empty string
+                text = getElementText(childElem) or ''
+                attributeValue = AttributeValueClass(text)
                 attribute.attributeValues.append(attributeValue)
 
             else:
@@ -608,6 +611,6 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
-        decision.value = elem.text
+        decision.value = getElementText(elem)
 
         return decision
-- 
2.43.0


From 33e5d251289ab74fc2ceb20a48527891b29ae079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 27/29] fix: write and read the status of results

---
 ndg/xacml/parsers/etree/context.py | 173 ++++++++++++++++++++++++++++-
 1 file changed, 170 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 7e925b1..7b9e93c 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -24,7 +24,8 @@ from ndg.xacml.core.context.environment import Environment
 from ndg.xacml.core.context.request import Request
 from ndg.xacml.core.context.resource import Resource
 from ndg.xacml.core.context.response import Response
-from ndg.xacml.core.context.result import Decision, Result
+from ndg.xacml.core.context.result import (Decision, Result, Status, 
+                                           StatusCode)
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
@@ -527,7 +528,11 @@ class ResultElementTree(Result):
         decisionElem = DecisionElementTree.toXML(result.decision)
         elem.append(decisionElem)
 
-        ### TODO Handle status and obligations
+        # Status is optional.
+        if result.status is not None:
+            elem.append(StatusElementTree.toXML(result.status))
+
+        ### TODO Handle obligations
 
         return elem
 
@@ -558,11 +563,15 @@ class ResultElementTree(Result):
             if localName == Decision.ELEMENT_LOCAL_NAME:
                 decision = DecisionElementTree.fromXML(childElem)
                 result.decision = decision
+
+            elif localName == Status.ELEMENT_LOCAL_NAME:
+                result.status = StatusElementTree.fromXML(childElem)
+
             else:
                 raise XMLParseError("XACML context Request child element name "
                                     "%r not recognised" % localName)
 
-            ### TODO Handle status and obligations
+            ### TODO Handle obligations
 
         return result
 
@@ -614,3 +623,161 @@ class DecisionElementTree(Decision):
         decision.value = getElementText(elem)
 
         return decision
+
+class StatusElementTree(Status):
+    """ElementTree based parser for XACML Status element
+    """
+    STATUS_MESSAGE_ELEMENT_LOCAL_NAME = 'StatusMessage'
+    STATUS_DETAIL_ELEMENT_LOCAL_NAME = 'StatusDetail'
+
+    @classmethod
+    def _toTextXML(cls, localName, text):
+        """Create an element containing text alone
+
+        @type localName: basestring
+        @param localName: local name for the element
+        @type text: basestring
+        @param text: text for the element
+        @rtype: ElementTree.Element
+        @return: ElementTree element containing the text
+        """
+        if not isinstance(text, str):
+            raise TypeError("Expecting string for %r got %r" % (localName, 
+                                                                type(text)))
+
+        tag = str(QName(XacmlContextBase.XACML_2_0_CONTEXT_NS, localName))
+        elem = etree.makeEtreeElement(tag,
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
+        elem.text = text
+
+        return elem
+
+    @classmethod
+    def toXML(cls, status):
+        """Create an XML representation of the input XACML Status object
+        
+        @type status: ndg.xacml.core.context.result.Status
+        @param status: XACML status object
+        @rtype: ElementTree.Element
+        @return: ElementTree element containing the status
+        """
+        if not isinstance(status, Status):
+            raise TypeError("Expecting %r class got %r" % (Status, 
+                                                           type(status)))
+
+        tag = str(QName(XacmlContextBase.XACML_2_0_CONTEXT_NS,
+                        cls.ELEMENT_LOCAL_NAME))
+        elem = etree.makeEtreeElement(tag,
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
+
+        if status.statusCode is not None:
+            elem.append(StatusCodeElementTree.toXML(status.statusCode))
+
+        if status.statusMessage is not None:
+            elem.append(cls._toTextXML(cls.STATUS_MESSAGE_ELEMENT_LOCAL_NAME,
+                                       status.statusMessage))
+
+        if status.statusDetail is not None:
+            elem.append(cls._toTextXML(cls.STATUS_DETAIL_ELEMENT_LOCAL_NAME,
+                                       status.statusDetail))
+
+        return elem
+
+    @classmethod
+    def fromXML(cls, elem):
+        """Parse an ElementTree XACML Status element into a
+        Status object
+        
+        @type elem: ElementTree.Element
+        @param elem: ElementTree element containing the status
+        @rtype: ndg.xacml.core.context.result.Status
+        @return: Status object
+        """
+        localName = QName.getLocalPart(elem.tag)
+        if localName != cls.ELEMENT_LOCAL_NAME:
+            raise XMLParseError('No "%s" element found' % 
+                                cls.ELEMENT_LOCAL_NAME)
+
+        status = Status()
+
+        for childElem in getElementChildren(elem):
+            localName = QName.getLocalPart(childElem.tag)
+
+            if localName == StatusCode.ELEMENT_LOCAL_NAME:
+                status.statusCode = StatusCodeElementTree.fromXML(childElem)
+
+            elif localName == cls.STATUS_MESSAGE_ELEMENT_LOCAL_NAME:
+                status.statusMessage = getElementText(childElem) or ''
+
+            elif localName == cls.STATUS_DETAIL_ELEMENT_LOCAL_NAME:
+                status.statusDetail = getElementText(childElem) or ''
+
+            else:
+                raise XMLParseError("XACML context Status child element name "
+                                    "%r not recognised" % localName)
+
+        return status
+
+class StatusCodeElementTree(StatusCode):
+    """ElementTree based parser for XACML StatusCode element
+    """
+    VALUE_ATTRIB_NAME = 'Value'
+
+    @classmethod
+    def toXML(cls, statusCode):
+        """Create an XML representation of the input XACML StatusCode object
+        
+        @type statusCode: ndg.xacml.core.context.result.StatusCode
+        @param statusCode: XACML status code object
+        @rtype: ElementTree.Element
+        @return: ElementTree element containing the status code
+        """
+        if not isinstance(statusCode, StatusCode):
+            raise TypeError("Expecting %r class got %r" % (StatusCode, 
+                                                           type(statusCode)))
+
+        tag = str(QName(XacmlContextBase.XACML_2_0_CONTEXT_NS,
+                        cls.ELEMENT_LOCAL_NAME))
+        elem = etree.makeEtreeElement(tag,
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
+
+        elem.set(cls.VALUE_ATTRIB_NAME, statusCode.value)
+
+        # Child status code is optional.
+        if statusCode.statusCode is not None:
+            elem.append(StatusCodeElementTree.toXML(statusCode.statusCode))
+
+        return elem
+
+    @classmethod
+    def fromXML(cls, elem):
+        """Parse an ElementTree XACML StatusCode element into a
+        StatusCode object
+        
+        @type elem: ElementTree.Element
+        @param elem: ElementTree element containing the status code
+        @rtype: ndg.xacml.core.context.result.StatusCode
+        @return: StatusCode object
+        """
+        localName = QName.getLocalPart(elem.tag)
+        if localName != cls.ELEMENT_LOCAL_NAME:
+            raise XMLParseError('No "%s" element found' % 
+                                cls.ELEMENT_LOCAL_NAME)
+
+        statusCode = StatusCode()
+        statusCode.value = elem.get(cls.VALUE_ATTRIB_NAME)
+
+        for childElem in getElementChildren(elem):
+            localName = QName.getLocalPart(childElem.tag)
+
+            if localName == StatusCode.ELEMENT_LOCAL_NAME:
+                statusCode.statusCode = StatusCodeElementTree.fromXML(
+                                                                    childElem)
+            else:
+                raise XMLParseError("XACML context StatusCode child element "
+                                    "name %r not recognised" % localName)
+
+        return statusCode
-- 
2.43.0


From e47650419135c44bd12f3f74b1f0b771f24ff4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:14 +0000
Subject: [PATCH 28/29] fix: a default given to FunctionMap.get hides a
 function not loaded yet

---
 ndg/xacml/core/functions/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index b3fd8a3..3613ee7 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -755,10 +755,18 @@ class FunctionMap(VettedDict):
         @return: function class
         @rtype: ndg.xacml.core.functions.AbstractFunction / NotImplemented
         """
-        functionClass = VettedDict.get(self, key, *arg)
+        functionClass = VettedDict.get(self, key)
         if functionClass is None:
-            self.loadFunction(key)
-            return VettedDict.get(self, key, *arg)    
+            try:
+                self.loadFunction(key)
+            except (FunctionMapError, UnsupportedFunctionError):
+                # The default is for a key which can't be loaded and not for 
+                # one which hasn't been loaded yet
+                if len(arg) > 0:
+                    return arg[0]
+                raise
+            
+            return VettedDict.get(self, key)    
         else:
             return functionClass
 
-- 
2.43.0


From e61a2a78eeeecb1cdb33029358137b6e3d7597aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:08 +0000
Subject: [PATCH 29/29] fix: writing a request moved its resource content out
 of the document it was read from

---
 ndg/xacml/parsers/etree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 7b9e93c..611d781 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -211,7 +212,9 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # A copy: appending an lxml element moves it out of the document it
+            # belongs to.
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0

