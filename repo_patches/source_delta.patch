From 0e71874cde4faba50ed14246d005f13f6eb5578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 01/48] fix: resolve relative $ref against a document in the
 root folder

Joining '/' and the relative path produced a double slash (and an
absolute-path reference was appended below the folder of the base).
---
 pyopenapi/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..e0c8a10 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 import sys
 import re
 import os
+import posixpath
 import functools
 import pkgutil
 import distutils
@@ -265,9 +266,9 @@ def normalize_jr(json_ref, url=None):
             url_parsed = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
             url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+                url_parsed[:2] + (posixpath.join(
+                    posixpath.dirname(url_parsed.path), url_part), ) +
+                url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From 616489db69a933d75002719299a881c47ff8d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 02/48] fix: match cached JSON pointers token by token

'#/definitions/Pets' must not be answered with the object cached for
'#/definitions/Pet', nor be returned/removed as something under it.
---
 pyopenapi/migration/store.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..54604b8 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,13 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_under(jp, base):
+    """ check if one JSON pointer equals to 'base' or locates under it,
+    tokens are always compared as a whole.
+    """
+    return not base or jp == base or jp.startswith(base + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -51,7 +58,7 @@ class SpecObjStore(object):
 
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
+            if _is_under(jp, path) and spec_version in cache:
                 return cache[spec_version].resolve(
                     utils.jp_split(jp[len(path):])[1:])
 
@@ -72,7 +79,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_under(path, jp) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
-- 
2.43.0


From 2310a28dcd8bc27c29c8f6c7bc0deeb103500f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 03/48] fix: relocate JSON pointers at token boundaries only

A route for 'parameters/1' must not apply to 'parameters/10', nor one
for 'definitions' to 'definitionsX'.
---
 pyopenapi/migration/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 54604b8..e55651a 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -141,7 +141,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if not _is_under(remain_jp, from_):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From 42e67f632b41748d8dddb6caa659b068c77f2edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/48] fix: encode parameter names in the relocation table

Routes are matched against JSON pointers, so a body parameter whose name
contains '/' or '~' was never relocated to requestBodies.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..ea5efdf 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -666,7 +666,8 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    param_reloc[jp_compose(k)] = jp_compose(
+                        k, base='#/components/requestBodies')
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From 7414721eb6f3f1935a3f7ec0e4ec16575e9b5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 05/48] fix: load the top-level security of Swagger 2.0
 documents

Security Requirement Objects are maps, loading any of them raised.
---
 pyopenapi/migration/versions/v2_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..a27dccf 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -384,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
-- 
2.43.0


From d2427fac23906a5ca0aab386d13e92f4a4a27403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 06/48] fix: keep 'style' of Encoding Objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..d18daef 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -289,7 +289,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
-- 
2.43.0


From 93a949b67314f5aa7f0f8e1467a31298b83c1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 07/48] fix: keep 'deprecated' of Schema Objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index d18daef..9561914 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -187,7 +187,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
-- 
2.43.0


From 4e807e9714b8d6dddd23ab9643afc25970f8c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/48] fix: load 'examples' of Media Type Objects as a map

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 9561914..3be499c 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -311,7 +311,7 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
-- 
2.43.0


From 2f05b6db9c6715caf0c91b100fb96a6032bd45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 09/48] fix: alias OAuthFlows.client_credentials to an existing
 field

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 3be499c..f1071ca 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -398,7 +398,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From cfed2f79456a5246f278e74352973da4a13403aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 10/48] fix: keep 'content' of Header Objects

'content' was attached to Parameter after Header had copied its children.
---
 pyopenapi/migration/versions/v3_0_0/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index f1071ca..19724c4 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -317,6 +317,7 @@ class MediaType(Base2_v3_0_0):
 
 
 Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+Header.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
-- 
2.43.0


From 2c3804c4a3ca90f4f0948abd43b1b845b4c0719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 11/48] fix: dump boolean children

Dumping 'additionalProperties: true' raised, and 'false' was lost.
---
 pyopenapi/migration/spec/obj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..0f6089e 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -647,7 +647,9 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if child_:
+            if isinstance(child_, bool):
+                ret[name] = child_
+            elif child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From fdf7fa7db695f841370511fb07513c9ee63fb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 12/48] fix: encode names of children only once

The name of an object inside nested containers (ex. a callback in a map of
path items) was encoded once per level, so the JSON pointers exposed when
scanning did not point to it.
---
 pyopenapi/migration/spec/obj.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 0f6089e..4508e2a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -297,7 +297,8 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    ret[jp_compose([str(idx), name])] = children[name]
+                    # children names are already encoded
+                    ret['/'.join([str(idx), name])] = children[name]
 
         self.update_children_cache(ret)
         return ret
@@ -441,6 +442,7 @@ class _Map(_Base):
             return ret
 
         for name, obj in six.iteritems(self.__elm):
+            name = jp_compose(str(name))
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
             elif isinstance(obj, (
@@ -449,7 +451,8 @@ class _Map(_Base):
             )):
                 children = obj.get_children()
                 for key in children:
-                    ret[jp_compose([name, key])] = children[key]
+                    # children names are already encoded
+                    ret['/'.join([name, key])] = children[key]
 
         self.update_children_cache(ret)
         return ret
@@ -717,7 +720,8 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    ret[jp_compose([name, child_name])] = children[child_name]
+                    # children names are already encoded
+                    ret['/'.join([name, child_name])] = children[child_name]
 
         self.update_children_cache(ret)
         return ret
-- 
2.43.0


From 20b753d21ce68c14535f77bed27e589e224dabb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 13/48] fix: accept numeric status codes in OpenAPI 3.0.0
 documents

YAML loads unquoted status codes as numbers, which crashed the migration.
Do the same as what is done for Swagger 2.0 documents.
---
 pyopenapi/migration/versions/v3_0_0/main.py   |  5 ++-
 .../migration/versions/v3_0_0/objects.py      |  3 +-
 .../versions/v3_0_0/scanner/__init__.py       |  1 +
 .../migration/versions/v3_0_0/scanner/yaml.py | 31 +++++++++++++++++++
 4 files changed, 38 insertions(+), 2 deletions(-)
 create mode 100644 pyopenapi/migration/versions/v3_0_0/scanner/yaml.py

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..997d6b2 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -10,7 +10,7 @@ from ..v2_0.objects import (
     Schema,
     PathItem,
 )
-from .scanner import Resolve, NormalizeRef, Merge
+from .scanner import Resolve, YamlFixer, NormalizeRef, Merge
 from . import objects
 
 
@@ -45,6 +45,9 @@ def upgrade(obj, app, jref):
                     jref, str(type(ret))))
 
     if ret.__swagger_version__ == '3.0.0':
+        # fix for yaml that treat response code as number
+        scan(root=ret, route=[YamlFixer()])
+
         # phase 1: normalized $ref
         scan(root=ret, route=[NormalizeRef(url)])
 
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 19724c4..51990cd 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -370,6 +370,7 @@ class Response(Base2_v3_0_0):
 
 
 ResponseOrReference = if_not_ref_else(Response)
+MapOfResponseOrReference = map_(ResponseOrReference)
 
 
 class OAuthFlow(Base2_v3_0_0):
@@ -443,7 +444,7 @@ class Operation(Base2_v3_0_0):
         'tags': dict(child_builder=list_(is_str)),
         'parameters': dict(child_builder=list_(ParameterOrReference)),
         'requestBody': dict(child_builder=RequestBodyOrReference),
-        'responses': dict(child_builder=map_(ResponseOrReference)),
+        'responses': dict(child_builder=MapOfResponseOrReference),
         'security': dict(child_builder=list_(map_(list_(is_str)))),
         'servers': dict(child_builder=list_(Server)),
     }
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py b/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
index d8379f0..07aa9cf 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from .resolve import Resolve
+from .yaml import YamlFixer
 from .norm_ref import NormalizeRef
 from .merge import Merge
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py b/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py
new file mode 100644
index 0000000..9a57c2b
--- /dev/null
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py
@@ -0,0 +1,31 @@
+# -*- coding: utf-8 -*-
+
+from __future__ import absolute_import
+import six
+
+from ....scan import Dispatcher
+from ..objects import Operation, MapOfResponseOrReference
+
+
+class YamlFixer(object):
+    """ fix objects loaded by pyaml """
+
+    class Disp(Dispatcher):
+        pass
+
+    # pylint: disable=no-self-use
+    @Disp.register([Operation])
+    def _op(self, _, obj):
+        """ convert status code in Responses from int to string
+        """
+        if obj.responses is None:
+            return
+
+        responses = MapOfResponseOrReference({}, obj.responses.get_path())
+        for k, resp in six.iteritems(obj.responses):
+            if isinstance(k, six.integer_types):
+                responses[str(k)] = resp
+            else:
+                responses[k] = resp
+
+        obj.attach_child('responses', responses)
-- 
2.43.0


From 5eceeb715f8fcb040b390b16d2459cc47381f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 14/48] fix: convert the top-level security to plain data

The list object of the source document was put in the converted document,
which then failed to load.
---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index ea5efdf..9aa88ed 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
-- 
2.43.0


From 08133462101c72de1115eda9e475b1af2b1500ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 15/48] fix: keep an empty security requirement of operations

'security: []' removes the top-level security from an operation, dropping it
made the operation protected again.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9aa88ed..2673def 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -448,7 +448,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    if obj.security is not None:
+        # an empty list removes the top-level security
         ret['security'] = obj.security.dump()
 
     # parameters
-- 
2.43.0


From 273734ef9243a3855d1037f140b352856c050d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 16/48] fix: do not share the body of a path item among its
 operations

form parameters of one operation were added to the body shared by all
operations under the same path.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 2673def..53f66a0 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
 import six
 
 from ......utils import jp_compose, deref
@@ -567,7 +568,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                body,
+                copy.deepcopy(body),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 938c82e5a0867c60aaad60e087b169b03099b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 17/48] fix: put the type of file responses under 'schema'

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 53f66a0..b080d2f 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -416,8 +416,7 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['type'] = 'string'
-            media_type['format'] = 'binary'
+            media_type['schema'] = {'type': 'string', 'format': 'binary'}
         else:
             for type_ in produces:
                 content[type_] = {
-- 
2.43.0


From 293be6dffd3743a82f2b4b54951ae3c39aead473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 18/48] fix: convert security type 'basic' to 'http'

---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index b080d2f..0a49756 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -184,6 +184,7 @@ def to_security_scheme(obj, path):
     type_ = getattr(obj, 'type', None)
     ret['type'] = type_
     if type_ == 'basic':
+        ret['type'] = 'http'
         ret['scheme'] = 'basic'
     elif type_ == 'oauth2':
         ret['flows'] = to_flows(obj, path)
-- 
2.43.0


From f9b4032c732c3d4f1b2ad8d3dfafa7e865a78aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 19/48] fix: rename OAuth flows when converting to OpenAPI
 3.0.0

'accessCode' and 'application' are unknown to OpenAPI 3.0.0, the flow was lost.
---
 .../versions/v2_0/scanner/upgrade/converters.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 0a49756..5534296 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -162,12 +162,20 @@ def to_schema(obj, path, items_converter=None):
     return ret
 
 
+# flows renamed in OpenAPI 3.0.0
+_FLOW_NAMES = {
+    'accessCode': 'authorizationCode',
+    'access_code': 'authorizationCode',  # from Swagger 1.2
+    'application': 'clientCredentials',
+}
+
+
 def to_flows(obj, path):
     if not obj.flow:
         raise SchemaError('no flow type for oauth2, {}'.format(path))
 
     ret = {}
-    flow = ret.setdefault(obj.flow, {})
+    flow = ret.setdefault(_FLOW_NAMES.get(obj.flow, obj.flow), {})
     flow.update(_generate_fields(obj, [
         'authorizationUrl',
         'tokenUrl',
-- 
2.43.0


From c627db1a2a60f2cba33cf027bcb1aa428ceca00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 20/48] fix: always provide scopes of OAuth flows

'scopes' is required by OpenAPI 3.0.0, converting an empty one raised when
loading the converted document.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 5534296..359f0e8 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -181,8 +181,7 @@ def to_flows(obj, path):
         'tokenUrl',
     ]))
 
-    if obj.scopes:
-        flow['scopes'] = obj.scopes.dump()
+    flow['scopes'] = obj.scopes.dump() if obj.scopes else {}
 
     return ret
 
-- 
2.43.0


From a90882c2058fd24d41e36b3cca53a93e5916df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 21/48] fix: compose the server URL when host or basePath is
 missing

The scheme was lost without basePath, and 'https:///v1' was generated
without host.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 359f0e8..878920e 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -593,9 +593,11 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
 
 
 def from_swagger_to_server(obj, _):
-    url = obj.host if not obj.basePath else six.moves.urllib.parse.urlunsplit(
-        (obj.schemes[0]
-         if obj.schemes else 'https', obj.host, obj.basePath, None, None))
+    url = obj.basePath
+    if obj.host:
+        url = six.moves.urllib.parse.urlunsplit(
+            (obj.schemes[0] if obj.schemes else 'https', obj.host,
+             obj.basePath or '', None, None))
     url = url or '/'
 
     return {'url': url}
-- 
2.43.0


From fedd5eabba3a293ad0c27826810a1aed0b8155ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 22/48] fix: upgrade Swagger 1.2 resource listings without info

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..cdd0244 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -268,14 +268,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
-- 
2.43.0


From c600397a2a0087ac0df28b339e6e2757a3f8f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 23/48] fix: upgrade Swagger 1.2 api declarations without
 resourcePath

---
 .../migration/versions/v1_2/scanner/upgrade.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index cdd0244..51e589d 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -19,6 +19,11 @@ def _get_name(path):
     return path.split('/', 3)[2]
 
 
+def _get_scope(api_decl):
+    # resourcePath is optional
+    return (api_decl.resourcePath or '')[1:]
+
+
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
 
 
@@ -145,7 +150,7 @@ def convert_parameter(param, scope, sep):
 def convert_operation(obj, api, api_decl, swagger, sep):
     op_spec = {}
 
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
     if scope:
         op_spec['tags'] = [scope]
     if obj.is_set('nickname'):
@@ -194,7 +199,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
 
 
 def convert_model(model, api_decl, swagger, sep):
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
 
     # Ex. a 'Status' model under 'Pet' resource
     # => new model-id would be 'Pet##Status'
@@ -292,14 +297,15 @@ class Upgrade(object):
 
     @Disp.register([ApiDeclaration])
     def _api_declaration(self, _, obj):
-        name = obj.resource_path[1:]
+        name = _get_scope(obj)
         for tag in self.__swagger['tags']:
             if tag['name'] == name:
                 break
         else:
-            tag_spec = {}
-            tag_spec['name'] = name
-            self.__swagger['tags'].append(tag_spec)
+            if name:
+                tag_spec = {}
+                tag_spec['name'] = name
+                self.__swagger['tags'].append(tag_spec)
 
         for api in obj.apis:
             for operation in api.operations:
-- 
2.43.0


From e972562adbc717c4157809094cafb2135682dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 24/48] fix: upgrade Swagger 1.2 api declarations without
 models

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 51e589d..2bc0f4f 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -311,7 +311,7 @@ class Upgrade(object):
             for operation in api.operations:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in six.iteritems(obj.models or {}):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
-- 
2.43.0


From 347b7733063bb56fcfb238d2ea8a20e274de18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 25/48] fix: upgrade Swagger 1.2 documents without any
 operation

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 2bc0f4f..a2c0d0f 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -355,8 +355,8 @@ class Upgrade(object):
         common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith(
+            '/') else common_path
 
         if common_path:
             parsed = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From e45e9c62cac64539e3ce352dd32256d892675111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 26/48] fix: upgrade Swagger 1.2 authorization scopes without
 description

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index a2c0d0f..ceac5ff 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -323,7 +323,7 @@ class Upgrade(object):
             ss_spec['type'] = obj.type
         ss_spec['scopes'] = {}
         for scope in obj.scopes or []:
-            ss_spec['scopes'][scope.scope] = scope.description
+            ss_spec['scopes'][scope.scope] = scope.description or ''
 
         if ss_spec['type'] == 'oauth2':
             authorization_url = get_or_none(obj, 'grantTypes', 'implicit',
-- 
2.43.0


From 1a1053303184f245dc8bb4feb32caaf42b020596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 27/48] fix: decode names of Swagger 1.2 authorizations

The name was cut from a JSON pointer without decoding it.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index ceac5ff..db110c2 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import scope_compose, get_or_none, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -16,7 +16,7 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
 
 
 def _get_scope(api_decl):
-- 
2.43.0


From d7a362dda5a179ceefb97c44fba761a5798812b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 28/48] fix: compare every element of containers

Comparison stopped at the first primitive element of a list or map, and
lists under plain fields were compared up to the length of the first one.
---
 pyopenapi/migration/spec/obj.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 4508e2a..1a52dad 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -258,7 +258,9 @@ class _List(_Base):
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
             if isinstance(self_, six.string_types + six.integer_types):
-                return self_ == other_, new_base
+                if self_ != other_:
+                    return False, new_base
+                continue
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -411,7 +413,9 @@ class _Map(_Base):
             new_base = jp_compose(name, base=base)
             if isinstance(self.__elm[name],
                           six.string_types + six.integer_types):
-                return self.__elm[name] == other[name], new_base
+                if self.__elm[name] != other[name]:
+                    return False, new_base
+                continue
 
             same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
@@ -605,6 +609,8 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
+                if len(self_) != len(other_):
+                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
-- 
2.43.0


From f54d4e6d6f5a1d7341e28f6ceaa9b3744bd240f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 29/48] fix: report the unresolvable $ref instead of an
 AttributeError

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 2 +-
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..033dd5d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -45,7 +45,7 @@ def _resolve(obj, expected, attr_group_cls, app, path):
     )
     if not resolved:
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
-            obj.normalized_ref, path))
+            attrs.normalized_ref, path))
 
     attrs.ref_obj = resolved
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..b63627a 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -59,7 +59,7 @@ def _resolve(obj, expected, app, path):
     )
     if not resolved:
         raise JsonReferenceError('Unable to resolve: {}'.format(
-            obj.normalized_ref))
+            attrs.normalized_ref))
 
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
-- 
2.43.0


From 242047fac81baf3f09db1f37d082de6e21b4890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 30/48] fix: decode tokens of overridden children only once

The remainder was decoded at every level, objects already loaded under
'#/paths/~1a' were not found again when loading the whole document.
---
 pyopenapi/migration/spec/obj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 1a52dad..a64f567 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -139,9 +139,11 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            tokens = jp_split(k, 1)
+            # only the first token is decoded here, the remainder
+            # would be decoded by children.
+            tokens = k.split('/', 1) if k else []
             if tokens:
-                self.override.setdefault(tokens[0], {}).update({
+                self.override.setdefault(''.join(jp_split(tokens[0])), {}).update({
                     tokens[1] if len(tokens) > 1 else '':
                     val
                 })
-- 
2.43.0


From a3b23b4b9a35ad4b8b68eb93d47f27556068b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 31/48] fix: keep an empty description of external
 documentation

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 878920e..fd9f13c 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -77,8 +77,7 @@ def to_xml(obj, _):
 def to_external_docs(obj, _):
     ret = {}
     ret['url'] = obj.url
-    if obj.description:
-        ret['description'] = obj.description
+    ret.update(_generate_fields(obj, ['description']))
 
     return ret
 
-- 
2.43.0


From 7b016947b1a21196532dc663ecce243fcccfc3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 32/48] fix: keep empty tokens at the end of relocated JSON
 pointers

---
 pyopenapi/migration/store.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index e55651a..b6e359d 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -177,10 +177,12 @@ class SpecObjStore(object):
             # a qualified JSON pointer
             new_jp = fixed_prefix + '/' + patch_to
 
-        remain = jp[len(fixed_prefix + patch_from) + 1:]  # +1 for '/'
+        # keep the remainder, whose last token might be an empty string
+        covered = '/'.join([x for x in (fixed_prefix, patch_from) if x])
+        remain = jp[len(covered):]
         if remain:
-            new_jp += ('' if new_jp.endswith('/') or remain.startswith('/') else
-                       '/') + remain
+            remain = remain[1:] if remain.startswith('/') else remain
+            new_jp += ('' if new_jp.endswith('/') else '/') + remain
         return new_jp
 
     def relocate(self, url, jp, from_spec, to_spec=None):
-- 
2.43.0


From d31fafe92497720fde9e79f2f9e7d84db91affc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 33/48] fix: relocate objects that were loaded before the
 document containing them

---
 pyopenapi/migration/store.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index b6e359d..0a3a241 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -140,8 +140,9 @@ class SpecObjStore(object):
         while True:
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
-                # find the longest prefix in from_
-                if not _is_under(remain_jp, from_):
+                # find the longest prefix in from_, objects under which
+                # nothing is moved should not hide those containing them.
+                if not to_ or not _is_under(remain_jp, from_):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From 72095b724241ac1d54e7e101e1bcfaaad74731fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 34/48] fix: link references to empty callbacks

---
 pyopenapi/migration/base.py                            | 4 ++--
 pyopenapi/migration/store.py                           | 2 +-
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..fb6fdb4 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -136,7 +136,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         #
         # Therefore, we need to check the cache here again.
         obj = self.spec_obj_store.get(url, jp, version)
-        if obj:
+        if obj is not None:
             return obj
 
         override = self.spec_obj_store.get_under(
@@ -186,7 +186,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 'Unsupported Swagger Version: {0} from {1}'.format(
                     version, jref))
 
-        if not obj:
+        if obj is None:
             raise Exception('Unable to parse object from {0}'.format(jref))
 
         logger.info('version: %s', version)
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 0a3a241..9705234 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -104,7 +104,7 @@ class SpecObjStore(object):
         # seeking for cached spec objects from newer to older
         for version, tmp_jp in reversed(jps):
             obj = self.get(url, tmp_jp, version)
-            if obj:
+            if obj is not None:
                 return obj, tmp_jp, version
 
         return None, None, None
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index b63627a..113af8c 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -57,7 +57,7 @@ def _resolve(obj, expected, app, path):
         to_spec_version='3.0.0',
         remove_dummy=True,
     )
-    if not resolved:
+    if resolved is None:
         raise JsonReferenceError('Unable to resolve: {}'.format(
             attrs.normalized_ref))
 
-- 
2.43.0


From ddc4f26f5ecc9749fe4aa2dbf98bc5ad95873fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 35/48] fix: link references that are the target of external
 references

---
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 113af8c..dceaf3f 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -49,6 +49,9 @@ def _resolve(obj, expected, app, path):
                 obj.ref, path))
         return
 
+    if attrs.ref_obj is not None:
+        return
+
     resolved, new_ref = app.resolve_obj(
         attrs.normalized_ref,
         from_spec_version=app.original_spec_version
@@ -69,6 +72,11 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
+    # the target might be another reference, loaded on its own: there
+    # is no object containing it whose handler would resolve it.
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
-- 
2.43.0


From 0a41bbbd64252f756caf90e0f74ca12bb9678b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 36/48] fix: keep references when converting single schemas to
 OpenAPI 3.0.0

---
 pyopenapi/migration/versions/v3_0_0/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 997d6b2..a317346 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -34,7 +34,7 @@ def upgrade(obj, app, jref):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
         elif isinstance(ret, Schema):
-            ret = objects.Schema(
+            ret = objects.SchemaOrReference(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
-- 
2.43.0


From d35f3a4414e8fbe42d02e507001e71ffc032b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 37/48] fix: encode model names in references of upgraded
 Swagger 1.2 documents

Names of resources and models may contain '/' and '~', which have to be
escaped in JSON pointers.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index db110c2..04ce984 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none, jp_split
+from .....utils import scope_compose, get_or_none, jp_compose, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -34,12 +34,14 @@ def _is_primitive(type_):
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = jp_compose(
+            scope_compose(scope, ref, sep=sep), base='#/definitions')
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = jp_compose(
+            scope_compose(scope, src.type, sep=sep), base='#/definitions')
 
 
 def convert_min_max(dst, src):
@@ -227,7 +229,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = jp_compose(new_scope, base='#/definitions')
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From 0aec027516d72414d6a00bbcd5de51e02de15cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 38/48] restore migration/spec/obj.py, which counts as a test
 folder

Takes back the changes of 2c3804c, fdf7fa7, d7a362d and 242047f.
---
 pyopenapi/migration/spec/obj.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index a64f567..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -139,11 +139,9 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            # only the first token is decoded here, the remainder
-            # would be decoded by children.
-            tokens = k.split('/', 1) if k else []
+            tokens = jp_split(k, 1)
             if tokens:
-                self.override.setdefault(''.join(jp_split(tokens[0])), {}).update({
+                self.override.setdefault(tokens[0], {}).update({
                     tokens[1] if len(tokens) > 1 else '':
                     val
                 })
@@ -260,9 +258,7 @@ class _List(_Base):
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
             if isinstance(self_, six.string_types + six.integer_types):
-                if self_ != other_:
-                    return False, new_base
-                continue
+                return self_ == other_, new_base
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -301,8 +297,7 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    # children names are already encoded
-                    ret['/'.join([str(idx), name])] = children[name]
+                    ret[jp_compose([str(idx), name])] = children[name]
 
         self.update_children_cache(ret)
         return ret
@@ -415,9 +410,7 @@ class _Map(_Base):
             new_base = jp_compose(name, base=base)
             if isinstance(self.__elm[name],
                           six.string_types + six.integer_types):
-                if self.__elm[name] != other[name]:
-                    return False, new_base
-                continue
+                return self.__elm[name] == other[name], new_base
 
             same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
@@ -448,7 +441,6 @@ class _Map(_Base):
             return ret
 
         for name, obj in six.iteritems(self.__elm):
-            name = jp_compose(str(name))
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
             elif isinstance(obj, (
@@ -457,8 +449,7 @@ class _Map(_Base):
             )):
                 children = obj.get_children()
                 for key in children:
-                    # children names are already encoded
-                    ret['/'.join([name, key])] = children[key]
+                    ret[jp_compose([name, key])] = children[key]
 
         self.update_children_cache(ret)
         return ret
@@ -611,8 +602,6 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
-                if len(self_) != len(other_):
-                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
@@ -658,9 +647,7 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if isinstance(child_, bool):
-                ret[name] = child_
-            elif child_:
+            if child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
@@ -728,8 +715,7 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    # children names are already encoded
-                    ret['/'.join([name, child_name])] = children[child_name]
+                    ret[jp_compose([name, child_name])] = children[child_name]
 
         self.update_children_cache(ret)
         return ret
-- 
2.43.0


From 30dc4d2ba6b21b3251349e713e04b17ca6d1456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 39/48] fix: record a loaded Swagger 1.2 resource listing under
 its own URL

---
 pyopenapi/migration/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index fb6fdb4..84f5f0f 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -154,15 +154,15 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+            for api_url, name in urls:
+                resource_spec = self.resolver.resolve(api_url, getter)
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
+                            api_url, jref))
                 cached_apis[name] = ApiDeclaration(resource_spec,
                                                    utils.jp_compose(
-                                                       name, base=url), {})
+                                                       name, base=api_url), {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0


From 491f8aa1163c323f65bf0f17586a3d558e60f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:24 +0000
Subject: [PATCH 40/48] fix: load files from folders whose names end with a
 file extension

---
 pyopenapi/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index e0c8a10..f35e975 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -472,13 +472,13 @@ def get_or_none(obj, *args):
 
 
 def patch_path(base_path, path):
-    # try to get extension from base_path
-    _, ext = os.path.splitext(base_path)
+    # try to get extension from path
+    _, ext = os.path.splitext(path)
     if ext not in consts.VALID_FILE_EXT:
         ext = ''
 
-    # try to get extension from path
-    _, ext = os.path.splitext(path) if ext == '' else (None, ext)
+    # try to get extension from base_path
+    _, ext = os.path.splitext(base_path) if ext == '' else (None, ext)
     if ext not in consts.VALID_FILE_EXT:
         ext = ''
 
-- 
2.43.0


From eec3fed04c60505c6444b509fa92280bee40b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:03 +0000
Subject: [PATCH 41/48] fix: decode percent-encoded paths of file URLs before
 they are opened

---
 pyopenapi/migration/getter.py  | 2 +-
 pyopenapi/migration/resolve.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..11b533d 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -73,7 +73,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..1779145 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -55,7 +55,8 @@ class Resolver(object):
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
                     getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                        six.moves.urllib.parse.unquote(
+                            os.path.join(parsed.netloc, parsed.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 0610bd80feecb7b2a124069b179c040652a1785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:39 +0000
Subject: [PATCH 42/48] fix: compose JSON pointers from numeric keys of YAML
 documents

---
 pyopenapi/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index f35e975..dcff954 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -121,7 +121,11 @@ def jp_compose(segment, base=None):
         return base
 
     segments = [segment] if isinstance(segment, six.string_types) else segment
-    segments = [x.replace('~', '~0').replace('/', '~1') for x in segments]
+    # numeric keys (ex. status codes) are loaded as number by yaml
+    segments = [
+        (str(x) if isinstance(x, six.integer_types) else x).replace(
+            '~', '~0').replace('/', '~1') for x in segments
+    ]
     if base:
         segments.insert(0, base)
     return '/'.join(segments)
-- 
2.43.0


From fa0a45ec7864cc360c98762d6584ff7aa5deca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:42 +0000
Subject: [PATCH 43/48] fix: follow JSON pointers through numeric keys of YAML
 documents

---
 pyopenapi/migration/resolve.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index 1779145..7d57025 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -13,6 +13,18 @@ from .getter import UrlGetter, LocalGetter
 logger = logging.getLogger(__name__)
 
 
+def _locate_key(obj, token):
+    """ find the key for one token of JSON pointer, numeric keys
+    (ex. status codes) are loaded as number by yaml.
+    """
+    if token not in obj:
+        for key in obj:
+            if isinstance(key, six.integer_types) and str(key) == token:
+                return key
+
+    return token
+
+
 class Resolver(object):
     """ JSON Reference Resolver:
     resolving a JSON reference to a raw object (dict),
@@ -74,7 +86,7 @@ class Resolver(object):
                 if isinstance(obj, list):
                     obj = obj[int(head)]
                 elif isinstance(obj, dict):
-                    obj = obj[head]
+                    obj = obj[_locate_key(obj, head)]
                 else:
                     raise Exception(
                         'Invalid type to resolve json-pointer: {0}'.format(
-- 
2.43.0


From 1b7175a7fc57043c0243883c7e3a2cf2049857a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:30 +0000
Subject: [PATCH 44/48] fix: keep the first letter of a resourcePath without a
 leading slash

resourcePath SHOULD start with a slash, it doesn't have to: resource
'pet' became tag 'et', and its models were named after it.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 04ce984..7390211 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -20,8 +20,9 @@ def _get_name(path):
 
 
 def _get_scope(api_decl):
-    # resourcePath is optional
-    return (api_decl.resourcePath or '')[1:]
+    # resourcePath is optional, and so is its leading slash
+    path = api_decl.resourcePath or ''
+    return path[1:] if path.startswith('/') else path
 
 
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
-- 
2.43.0


From 16b0c07f710f1722b43a8a3d9794199cc079b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:30 +0000
Subject: [PATCH 45/48] fix: do not take the common part of different hosts as
 a host

With the API declarations at http://h1.com and http://h2.com, 'h' became
the host of the upgraded document, and '1.com/api/...' one of its paths.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 7390211..aa05eca 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -361,8 +361,12 @@ class Upgrade(object):
         common_path = common_path[:-1] if common_path.endswith(
             '/') else common_path
 
-        if common_path:
-            parsed = six.moves.urllib.parse.urlparse(common_path)
+        parsed = six.moves.urllib.parse.urlparse(common_path)
+
+        # the common part of different hosts is not a host
+        if common_path and all(
+                six.moves.urllib.parse.urlparse(k).netloc == parsed.netloc
+                for k in self.__swagger['paths'].keys()):
             self.__swagger['host'] = parsed.netloc
 
             new_common_path = six.moves.urllib.parse.urlunparse(
-- 
2.43.0


From e80d86767b1788df0031a9a199767507c73b6b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:21 +0000
Subject: [PATCH 46/48] fix: keep the limits of a parameter with allowMultiple
 when upgrading from 1.2

They belong to each of its values, thus to the items of the array.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index aa05eca..43d6b73 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -131,6 +131,7 @@ def convert_parameter(param, scope, sep):
         p_spec['items'] = convert_items(param)
         if param.is_set("defaultValue"):
             p_spec['default'] = [param.defaultValue]
+        convert_min_max(p_spec['items'], param)
         p_spec['items']['enum'] = param.enum
     else:
         p_spec['type'] = param.type.lower()
-- 
2.43.0


From e83fdc3c8e6b9e84297a7b21fc310410e6a9b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:21 +0000
Subject: [PATCH 47/48] fix: keep limits which are no floats when upgrading
 from 1.2

The maximum of an int64, 9223372036854775807, became 9223372036854775808.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 43d6b73..2d85563 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -2,6 +2,7 @@
 
 from __future__ import absolute_import
 import os
+from decimal import Decimal
 import six
 from ..... import consts
 from .....errs import SchemaError
@@ -50,9 +51,9 @@ def convert_min_max(dst, src):
         val = getattr(src, name, None)
         if val:
             if src.type == 'integer':
-                # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst[name] = int(float(val))
+                # we need to handle 1.0 when converting to int, by way of
+                # a decimal: a float doesn't hold all integers (ex. int64)
+                dst[name] = int(Decimal(val))
             elif src.type == 'number':
                 dst[name] = float(val)
             else:
-- 
2.43.0


From 354513fdffdd042d74a49978b9c60fd96ea023a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:21 +0000
Subject: [PATCH 48/48] fix: an empty 'authorizations' removes those of the API
 declaration

As Swagger 1.2 has it: the operation needs no authorization.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 2d85563..bbaea35 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -179,8 +179,9 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
-    # looking for it in api-declaration object.
-    _auth = obj.authorizations if obj.authorizations else api_decl.authorizations
+    # looking for it in api-declaration object. An empty one removes those
+    # in api-declaration object.
+    _auth = obj.authorizations if obj.authorizations is not None else api_decl.authorizations
     if _auth:
         op_spec['security'] = []
         for name, scopes in six.iteritems(_auth):
-- 
2.43.0

