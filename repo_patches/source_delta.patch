From 3966b2ddbb819c30873cffb1ea7af5a6ba234e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 01/89] fix: reject line breaks in header values passed to the
 Headers constructor

---
 verktyg/http/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..37fc141 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,6 +152,8 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
+                for _, value in defaults:
+                    self._validate_value(unicodify_header_value(value))
                 self._list.extend(defaults)
             else:
                 self.extend(defaults)
-- 
2.43.0


From bbf78f6cd01bc43dd619d50bacac7361bcdc34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 02/89] fix: count encoded bytes, not characters, for the
 content length of text bodies

---
 verktyg/responses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..bc2ae35 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -567,7 +567,7 @@ class BaseResponse(object):
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(len(x) for x in self.iter_encoded())
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From 839abcd1f5e1cd5a1e328457d363e17599915c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:13 +0000
Subject: [PATCH 03/89] fix: close the iterable consumed by freezing a streamed
 response

---
 verktyg/responses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index bc2ae35..6a3bf1f 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -490,6 +490,8 @@ class BaseResponse(object):
         """
         # we explicitly set the length to a list of the *encoded* response
         # iterator.  Even if the implicit sequence conversion is disabled.
+        # `make_sequence` remembers to close the iterable it consumes.
+        self.make_sequence()
         self.response = list(self.iter_encoded())
         self.headers['Content-Length'] = str(sum(map(len, self.response)))
 
-- 
2.43.0


From 193e29fbea9086225ec2e8a54f6f4cb7d4daec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:16 +0000
Subject: [PATCH 04/89] fix: run response cleanup only once when the client
 disconnects

---
 verktyg/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 385ff31..5136814 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -89,7 +89,10 @@ class BaseApplication(object):
     def _wsgi_inner(self, wsgi_env, start_response):
         with self.request_class(wsgi_env) as request:
             with self._get_response(request) as response:
-                yield from response(wsgi_env, start_response)
+                # not `yield from`, which would close the response a second
+                # time if the client disconnects
+                for chunk in response(wsgi_env, start_response):
+                    yield chunk
 
     def __call__(self, wsgi_env, start_response):
         wsgi_env['verktyg.application'] = self
-- 
2.43.0


From 2a4fece39eda415c751d904a338c567568ad14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:19 +0000
Subject: [PATCH 05/89] fix: close the iterable wrapped by ClosingIterator, not
 its iterator

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..3f2f1d7 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -583,7 +583,7 @@ class ClosingIterator(object):
             callbacks = [callbacks]
         else:
             callbacks = list(callbacks)
-        iterable_close = getattr(iterator, 'close', None)
+        iterable_close = getattr(iterable, 'close', None)
         if iterable_close:
             callbacks.insert(0, iterable_close)
         self._callbacks = callbacks
-- 
2.43.0


From 96ac6c38e143adaab6462a506af3603bdf58ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:31 +0000
Subject: [PATCH 06/89] fix: do not read comma separated converter arguments as
 one number

---
 verktyg/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..22a6eeb 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -122,8 +122,8 @@ _converter_args_re = re.compile(r'''
     ((?P<name>\w+)\s*=\s*)?
     (?P<value>
         True|False|
-        \d+.\d+|
-        \d+.|
+        \d+\.\d+|
+        \d+\.|
         \d+|
         \w+|
         [urUR]?(?P<stringval>"[^"]*?"|'[^']*')
-- 
2.43.0


From d277d94b9d562c5e23c90281db98e02c4f9bf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 07/89] fix: a route does not cover a path with an additional
 line break

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 22a6eeb..25d3477 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -627,7 +627,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From b56a58f3ee2bf40967d28e8ae8ea64fcf323ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 08/89] fix: keep redirect_to, alias and host of routes
 expanded from a template

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 25d3477..3bae0da 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -404,7 +404,10 @@ class RouteTemplateFactory(RouteFactory):
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    route.redirect_to,
+                    route.alias,
+                    route.host,
                 )
 
 
-- 
2.43.0


From 3b8aab92200d4df952c17bb1db2db9c9dd1aa088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:40 +0000
Subject: [PATCH 09/89] fix: building a url from a MultiDict

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 3bae0da..fa6788f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1534,7 +1534,10 @@ class MapAdapter(object):
         self.router.update()
         if values:
             if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
+                valueiter = (
+                    (k, v[0] if len(v) == 1 else v)
+                    for k, v in values.lists() if v
+                )
             else:
                 valueiter = values.items()
             values = dict((k, v) for k, v in valueiter if v is not None)
-- 
2.43.0


From 7d92a6553e41f30984a7215442d3914b2d75554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 10/89] fix: append all values of a list to the query string of
 a built url

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index fa6788f..8eb6553 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -710,7 +710,10 @@ class Route(RouteFactory):
 
             if query_vars:
                 url += u'?' + urlencode(
-                    sorted(query_vars.items(), key=self.router.sort_key),
+                    sorted(
+                        query_vars.items(multi=True),
+                        key=self.router.sort_key or (lambda item: item[0])
+                    ),
                     encoding=self.router.charset,
                 )
 
-- 
2.43.0


From 02d0beba857a3115483f99319843b998cb91c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:47 +0000
Subject: [PATCH 11/89] fix: do not normalise dots and slashes inside of built
 url values

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 8eb6553..3ea94bd 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1566,7 +1566,7 @@ class MapAdapter(object):
                 (host_matching and host == self.server_name) or
                 (not host_matching and domain_part == self.subdomain)
             ):
-                return str(urljoin(self.script_name, './' + path.lstrip('/')))
+                return posixpath.join(self.script_name, path.lstrip('/'))
 
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
-- 
2.43.0


From cd12306bd715c0263795e8d4a62e70e0beab1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:10 +0000
Subject: [PATCH 12/89] fix: build floats without an exponent so that they
 match again

---
 verktyg/routing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 3ea94bd..53f8b1a 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -93,6 +93,7 @@
 """
 import re
 import uuid
+from decimal import Decimal
 import posixpath
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
@@ -969,6 +970,12 @@ class FloatConverter(NumberConverter):
     def __init__(self, router, min=None, max=None):
         NumberConverter.__init__(self, router, 0, min, max)
 
+    def to_url(self, value):
+        # the exponent form of very small and very large numbers would not be
+        # matched by the regular expression
+        value = '{:f}'.format(Decimal(repr(self.num_convert(value))))
+        return value if '.' in value else value + '.0'
+
 
 class UUIDConverter(BaseConverter):
     """This converter only accepts UUID strings::
-- 
2.43.0


From 327a08747bafdc88d1b900409842176179efeca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 13/89] fix: encode query arguments of redirects with the
 charset of the router

---
 verktyg/routing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 53f8b1a..5ddab92 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1460,7 +1460,11 @@ class MapAdapter(object):
 
     def encode_query_args(self, query_args):
         if not isinstance(query_args, str):
-            query_args = urlencode(query_args, self.router.charset)
+            if isinstance(query_args, MultiDict):
+                query_args = list(query_args.items(multi=True))
+            query_args = urlencode(
+                query_args, doseq=True, encoding=self.router.charset
+            )
         return query_args
 
     def make_redirect_url(self, path_info, query_args=None, domain_part=None):
-- 
2.43.0


From 49a000795d113083d566e532fc9cc3c0a1783380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:47 +0000
Subject: [PATCH 14/89] fix: values a number converter cannot take do not fit
 the route when building

---
 verktyg/routing.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 5ddab92..6c70641 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -910,6 +910,12 @@ class NumberConverter(BaseConverter):
             "num_convert must be overridden by subclasses of NumberConverter"
         )
 
+    def _convert_for_url(self, value):
+        try:
+            return self.num_convert(value)
+        except (TypeError, ValueError):
+            raise ValidationError()
+
     def to_python(self, value):
         if (self.fixed_digits and len(value) != self.fixed_digits):
             raise ValidationError()
@@ -922,7 +928,7 @@ class NumberConverter(BaseConverter):
         return value
 
     def to_url(self, value):
-        value = self.num_convert(value)
+        value = self._convert_for_url(value)
         if self.fixed_digits:
             value = ('%%0%sd' % self.fixed_digits) % value
         return str(value)
@@ -973,7 +979,7 @@ class FloatConverter(NumberConverter):
     def to_url(self, value):
         # the exponent form of very small and very large numbers would not be
         # matched by the regular expression
-        value = '{:f}'.format(Decimal(repr(self.num_convert(value))))
+        value = '{:f}'.format(Decimal(repr(self._convert_for_url(value))))
         return value if '.' in value else value + '.0'
 
 
@@ -1453,8 +1459,10 @@ class MapAdapter(object):
                 r.provides_defaults_for(route) and
                 r.suitable_for(values)
             ):
-                values.update(r.defaults)
-                domain_part, path = r.build(values)
+                rv = r.build(dict(values, **r.defaults))
+                if rv is None:
+                    continue
+                domain_part, path = rv
                 return self.make_redirect_url(
                     path, query_args, domain_part=domain_part)
 
-- 
2.43.0


From 27a36311de34168a98056bc95dc76ac9793faf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:19 +0000
Subject: [PATCH 15/89] fix: values in the path cannot redirect to another site
 through redirect_to

---
 verktyg/routing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 6c70641..3457689 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -97,7 +97,7 @@ from decimal import Decimal
 import posixpath
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
-    urlunparse, ParseResult
+    urlparse, urlunparse, ParseResult
 )
 
 from pprint import pformat
@@ -1392,6 +1392,13 @@ class MapAdapter(object):
                     redirect_url = _simple_route_re.sub(
                         _handle_match, route.redirect_to,
                     )
+                    # values must not be able to turn a target relative to
+                    # the script root into the url of another site
+                    if (
+                        not route.redirect_to.startswith('/') and
+                        not urlparse(route.redirect_to).scheme
+                    ):
+                        redirect_url = './' + redirect_url
                 else:
                     redirect_url = route.redirect_to(self, **rv)
                 raise RequestRedirect(str(urljoin('%s://%s%s%s' % (
-- 
2.43.0


From 9d2673a27e07a420d80c64c6246947e72cb1f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:22 +0000
Subject: [PATCH 16/89] fix: detect an alias without a canonical url instead of
 redirecting to itself

---
 verktyg/routing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 3457689..e95e8a6 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1504,9 +1504,13 @@ class MapAdapter(object):
         )
         if query_args:
             url += '?' + self.encode_query_args(query_args)
-        assert url != path, (
-            'detected invalid alias setting.  No canonical URL found'
-        )
+        # routes that are no alias are preferred when building, so without one
+        # that fits the redirect would lead to an alias again
+        assert any(
+            not route.alias and route.suitable_for(values) and
+            route.build(values) is not None
+            for route in self.router._routes_by_endpoint[endpoint]
+        ), 'detected invalid alias setting.  No canonical URL found'
         return url
 
     def build(
-- 
2.43.0


From 7a0ba617d19cc4e11f81f76b1c26becad098bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 17/89] fix: negotiate language and charset with their own
 headers

---
 verktyg/accept/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..e575b5f 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -172,13 +172,13 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 329714d920255243bfc9b461b06cd3a4d6db9a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:04 +0000
Subject: [PATCH 18/89] fix: order acceptabilities by specificity first, then
 by quality

---
 verktyg/accept/__init__.py | 34 +++++++++++-----------------------
 verktyg/accept/_base.py    |  9 +++------
 2 files changed, 14 insertions(+), 29 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index e575b5f..0371669 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -53,29 +53,17 @@ class Acceptability(object):
         return True
 
     def __gt__(self, other):
-        def _gt(self, other):
-            if (self is None) and (other is None):
-                return False
-            if self <= other:
-                return False
-            return True
-
-        if _gt(
-                self._content_type_acceptability,
-                other._content_type_acceptability):
-            return True
-        if _gt(
-                self._language_acceptability,
-                other._language_acceptability):
-            return True
-        if _gt(
-                self._charset_acceptability,
-                other._charset_acceptability):
-            return True
-        if _gt(
-                self._qs,
-                other._qs):
-            return True
+        # components are compared in order of importance, a less important one
+        # only counts if all of the more important ones are equal
+        for own, others in (
+            (self._content_type_acceptability,
+             other._content_type_acceptability),
+            (self._language_acceptability, other._language_acceptability),
+            (self._charset_acceptability, other._charset_acceptability),
+            (self._qs, other._qs),
+        ):
+            if own != others:
+                return others is None or (own is not None and own > others)
         return False
 
 
diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..a659c1c 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -167,13 +167,10 @@ class Acceptability(object):
         if other is None:
             return True
 
-        if self._match_quality > other._match_quality:
-            return True
-
-        if self.quality > other.quality:
-            return True
+        if self._match_quality != other._match_quality:
+            return self._match_quality > other._match_quality
 
-        return False
+        return self.quality > other.quality
 
 
 # TODO better name
-- 
2.43.0


From 87abecebf957b1cda7bc29acfdfb03deae907f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:07 +0000
Subject: [PATCH 19/89] fix: a quality of zero marks a value as not acceptable

---
 verktyg/accept/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index a659c1c..8f6b1fc 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -209,7 +209,7 @@ class Value(object):
                 if best_match is None or match > best_match:
                     best_match = match
 
-        if best_match is None:
+        if best_match is None or best_match._q == 0:
             raise NotAcceptable()
 
         return best_match
-- 
2.43.0


From 0f46cad7bd9e883031535fb5ef450225554e4216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:09 +0000
Subject: [PATCH 20/89] fix: malformed accept headers do not break negotiation

---
 verktyg/accept/__init__.py     | 33 +++++++++++++++++++--------------
 verktyg/accept/content_type.py |  8 ++++----
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 0371669..0a6b338 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -67,6 +67,18 @@ class Acceptability(object):
         return False
 
 
+def _parse_header(parse, header, default):
+    # A header that is missing or malformed does not restrict the choice.
+    if header is None:
+        return parse(default)
+    if isinstance(header, str):
+        try:
+            return parse(header)
+        except ValueError:
+            return parse(default)
+    return header
+
+
 def select_representation(
     representations,
     accept='*/*', accept_language='*', accept_charset='*'
@@ -74,20 +86,13 @@ def select_representation(
     highest_acceptability = None
     best_representation = None
 
-    if accept is None:
-        accept = '*/*'
-    if isinstance(accept, str):
-        accept = parse_accept_header(accept)
-
-    if accept_language is None:
-        accept_language = '*'
-    if isinstance(accept_language, str):
-        accept_language = parse_accept_language_header(accept_language)
-
-    if accept_charset is None:
-        accept_charset = '*'
-    if isinstance(accept_charset, str):
-        accept_charset = parse_accept_charset_header(accept_charset)
+    accept = _parse_header(parse_accept_header, accept, '*/*')
+    accept_language = _parse_header(
+        parse_accept_language_header, accept_language, '*'
+    )
+    accept_charset = _parse_header(
+        parse_accept_charset_header, accept_charset, '*'
+    )
 
     for representation in representations:
         try:
diff --git a/verktyg/accept/content_type.py b/verktyg/accept/content_type.py
index a4837ac..c1cbc24 100644
--- a/verktyg/accept/content_type.py
+++ b/verktyg/accept/content_type.py
@@ -55,12 +55,12 @@ class _ContentTypeRange(_base.Range):
 
     @property
     def type(self):
-        type, _ = self.value.split('/')
+        type, _ = self.value.split('/', 1)
         return type
 
     @property
     def subtype(self):
-        _, subtype = self.value.split('/')
+        _, subtype = self.value.split('/', 1)
         return subtype
 
 
@@ -103,12 +103,12 @@ class ContentType(_base.Value):
 
     @property
     def type(self):
-        type, _ = self.value.split('/')
+        type, _ = self.value.split('/', 1)
         return type
 
     @property
     def subtype(self):
-        _, subtype = self.value.split('/')
+        _, subtype = self.value.split('/', 1)
         return subtype
 
     def _acceptability_for_option(self, option):
-- 
2.43.0


From 0c4e11b43a7832003d54c0dfa473e4bec1efcf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 21/89] fix: nesting of exception dispatchers

---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..1e731d2 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From dc75563b6989f7292056672e581fecb77e6363b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:29 +0000
Subject: [PATCH 22/89] fix: json views of applications without a debug setting

---
 verktyg/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/application.py b/verktyg/application.py
index 5136814..c2f01cd 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -26,6 +26,9 @@ def _default_redirect_handler(app, req, exc_type, exc_value, exc_traceback):
 
 
 class BaseApplication(object):
+    #: Asks views for output that is easier to read for developers.
+    debug = False
+
     def __init__(
         self, app_root, config, *,
         routes, converters, bindings, handlers,
-- 
2.43.0


From bf1fc632c916aa36003be282716d7ef387bf5231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:16 +0000
Subject: [PATCH 23/89] fix: entity tag lists with empty tags or empty elements

---
 verktyg/http/cache_control.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..f482823 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -16,7 +16,7 @@ from verktyg.http.basic import (
 )
 
 
-_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|\Z)')
 
 
 class IfRange(object):
@@ -565,8 +565,12 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
+        elif not raw:
+            # empty element of the list
+            pos = match.end()
+            continue
         if is_weak:
             weak.append(raw)
         else:
-- 
2.43.0


From 518b85116dc9034f20e3b9ea40d6002c5e3e22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:48 +0000
Subject: [PATCH 24/89] fix: ordered multi dicts keep their order and buckets
 consistent

---
 verktyg/datastructures.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..79fb1d2 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -678,7 +678,8 @@ class OrderedMultiDict(MultiDict):
         return True
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        rv = self.__eq__(other)
+        return rv if rv is NotImplemented else not rv
 
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
@@ -687,9 +688,9 @@ class OrderedMultiDict(MultiDict):
         return list(self.items(multi=True))
 
     def __setstate__(self, values):
-        dict.clear(self)
+        OrderedMultiDict.clear(self)
         for key, value in values:
-            self.add(key, value)
+            OrderedMultiDict.add(self, key, value)
 
     def __getitem__(self, key):
         if key in self:
@@ -703,6 +704,16 @@ class OrderedMultiDict(MultiDict):
     def __delitem__(self, key):
         self.pop(key)
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(
+            deepcopy(list(self.items(multi=True)), memo)
+        )
+
     def keys(self):
         return (key for key, value in self.items())
 
-- 
2.43.0


From 4705232561e1f7e466e30585e6a48195cf737e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 25/89] fix: updating a multi dict with itself does not loop
 for ever

---
 verktyg/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 79fb1d2..16f14c2 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -540,7 +540,7 @@ class MultiDict(TypeConversionDict):
 
     def update(self, other_dict):
         """update() extends rather than replaces existing key lists."""
-        for key, value in iter_multi_items(other_dict):
+        for key, value in list(iter_multi_items(other_dict)):
             MultiDict.add(self, key, value)
 
     def pop(self, key, default=_missing):
@@ -778,7 +778,7 @@ class OrderedMultiDict(MultiDict):
         )
 
     def update(self, mapping):
-        for key, value in iter_multi_items(mapping):
+        for key, value in list(iter_multi_items(mapping)):
             OrderedMultiDict.add(self, key, value)
 
     def poplist(self, key):
-- 
2.43.0


From 6934b66ab5f31e6cb928bda09b9f7131791b7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 26/89] fix: multi dicts never hold a key without values

---
 verktyg/datastructures.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 16f14c2..cbc53ad 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -329,6 +329,8 @@ class MultiDict(TypeConversionDict):
             for key, value in mapping.items():
                 if isinstance(value, (tuple, list)):
                     value = list(value)
+                    if not value:
+                        continue
                 else:
                     value = [value]
                 tmp[key] = value
@@ -425,7 +427,11 @@ class MultiDict(TypeConversionDict):
             An iterable with the new values for the key.  Old values are
             removed first.
         """
-        dict.__setitem__(self, key, list(new_list))
+        new_list = list(new_list)
+        if new_list:
+            dict.__setitem__(self, key, new_list)
+        else:
+            dict.pop(self, key, None)
 
     def setdefault(self, key, default=None):
         """Returns the value for the key if it is in the dict, otherwise it
-- 
2.43.0


From 0f4f9842f36363a09f2e2d7a8afa02ab15990c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:58 +0000
Subject: [PATCH 27/89] fix: merge operators of multi dicts

---
 verktyg/datastructures.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index cbc53ad..28a500d 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -549,6 +549,15 @@ class MultiDict(TypeConversionDict):
         for key, value in list(iter_multi_items(other_dict)):
             MultiDict.add(self, key, value)
 
+    def __or__(self, other):
+        rv = self.copy()
+        rv.update(other)
+        return rv
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def pop(self, key, default=_missing):
         """Pop the first item for a list on the dict.  Afterwards the
         key is removed from the dict, so additional values are discarded:
-- 
2.43.0


From 722687294703a0ff98ca0c9405f92beb4c31607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 28/89] fix: equality, deep copies and lists of combined multi
 dicts

---
 verktyg/datastructures.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 28a500d..2fbc059 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -867,6 +867,17 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
             'cannot create {cls!r} instances by fromkeys'
         ).format(cls=cls.__name__))
 
+    def __eq__(self, other):
+        if not isinstance(other, MultiDict):
+            return NotImplemented
+        return dict(self.lists()) == dict(other.lists())
+
+    def __ne__(self, other):
+        rv = self.__eq__(other)
+        return rv if rv is NotImplemented else not rv
+
+    __hash__ = ImmutableMultiDictMixin.__hash__
+
     def __getitem__(self, key):
         for d in self.dicts:
             if key in d:
@@ -935,6 +946,10 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         """Return a shallow copy of this object."""
         return self.__class__(self.dicts[:])
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(self.dicts, memo))
+
     def to_dict(self, flat=True):
         """Return the contents as regular dict.  If `flat` is `True` the
         returned dict will only have the first item present, if `flat` is
@@ -947,10 +962,9 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
-        rv = {}
-        for d in reversed(self.dicts):
-            rv.update(d.to_dict(flat))
-        return rv
+        if flat:
+            return dict(self.items())
+        return dict(self.lists())
 
     def __len__(self):
         return len(self._keys_impl())
-- 
2.43.0


From e60dc958e1b4896d6e0eafc448fd3c79fdde28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:05 +0000
Subject: [PATCH 29/89] fix: listvalues does not expose the internal lists

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 2fbc059..23d534d 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -518,7 +518,8 @@ class MultiDict(TypeConversionDict):
         True
         """
 
-        return dict.values(self)
+        for values in dict.values(self):
+            yield list(values)
 
     def copy(self):
         """Return a shallow copy of this object."""
-- 
2.43.0


From 5c991b5172fcd412878686704264649b9e946ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 30/89] fix: clearing and merging immutable objects

---
 verktyg/datastructures.py | 6 ++++++
 verktyg/http/basic.py     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 23d534d..8349ea4 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -80,6 +80,9 @@ class ImmutableListMixin(object):
         is_immutable(self)
     remove = append
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
@@ -152,6 +155,9 @@ class ImmutableDictMixin(object):
     def __delitem__(self, key):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
     def clear(self):
         is_immutable(self)
 
diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 37fc141..b7c63c3 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -529,6 +529,9 @@ class ImmutableHeadersMixin(object):
     def popitem(self):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
     def setdefault(self, key, default):
         is_immutable(self)
 
-- 
2.43.0


From ed030a43d756b66ed84419c09374904e53466ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:13 +0000
Subject: [PATCH 31/89] fix: copies and pickles of authorization objects keep
 type and content

---
 verktyg/http/auth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/auth.py b/verktyg/http/auth.py
index 8e32395..8a280f2 100644
--- a/verktyg/http/auth.py
+++ b/verktyg/http/auth.py
@@ -30,6 +30,9 @@ class Authorization(datastructures.ImmutableDictMixin, dict):
         dict.__init__(self, data or {})
         self.type = auth_type
 
+    def __reduce_ex__(self, protocol):
+        return type(self), (self.type, dict(self))
+
     username = property(lambda x: x.get('username'), doc='''
         The username transmitted.  This is set for both basic and digest
         auth all the time.''')
-- 
2.43.0


From cf04b9974db5c94364945f9d639909774519912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 32/89] fix: quote empty header values

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index b7c63c3..bc4be30 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -78,7 +78,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     value = str(value)
     if allow_token:
         token_chars = _token_chars | set(extra_chars)
-        if set(value).issubset(token_chars):
+        if value and set(value).issubset(token_chars):
             return value
     return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')
 
-- 
2.43.0


From 56b84f446c6b785396a37786661fe694deee8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 33/89] fix: quoted list and dict items are unquoted only once

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index bc4be30..2068dbd 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -617,7 +617,7 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -658,7 +658,7 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From ac06e56c0cd94c2dbdbcc3bde0073e89d963eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 34/89] fix: options headers without any item do not raise
 StopIteration

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 2068dbd..38ab2d3 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -691,7 +691,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From a93f60574158e0be445b4491f9b2c043aaa70b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:12 +0000
Subject: [PATCH 35/89] fix: malformed range headers parse as None instead of
 raising

---
 verktyg/http/cache_control.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index f482823..2e3f05e 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -113,6 +113,10 @@ class Range(object):
         return '<%s %r>' % (self.__class__.__name__, str(self))
 
 
+def _is_number(text):
+    return text.isascii() and text.isdigit()
+
+
 def parse_range_header(value, make_inclusive=True):
     """Parses a range header into a :class:`~Range`
     object.  If the header is missing or malformed `None` is returned.
@@ -129,18 +133,20 @@ def parse_range_header(value, make_inclusive=True):
 
     for item in rng.split(','):
         item = item.strip()
-        if '-' not in item:
+        # nothing can follow a range without an end
+        if '-' not in item or last_end is None:
             return None
+        begin, end = (part.strip() for part in item.split('-', 1))
         if item.startswith('-'):
-            if last_end < 0:
+            if not _is_number(item[1:]) or int(item) == 0:
                 return None
             begin = int(item)
             end = None
-            last_end = -1
-        elif '-' in item:
-            begin, end = item.split('-', 1)
+        else:
+            if not _is_number(begin) or (end and not _is_number(end)):
+                return None
             begin = int(begin)
-            if begin < last_end or last_end < 0:
+            if begin < last_end:
                 return None
             if end:
                 end = int(end) + 1
@@ -148,7 +154,7 @@ def parse_range_header(value, make_inclusive=True):
                     return None
             else:
                 end = None
-            last_end = end
+        last_end = end
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From 8ed40a8e74ebd52371708e593d4350efb4a694e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:14 +0000
Subject: [PATCH 36/89] fix: a suffix range longer than the resource means all
 of it

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 2e3f05e..980be09 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -84,7 +84,7 @@ class Range(object):
         if end is None:
             end = length
             if start < 0:
-                start += length
+                start = max(0, start + length)
         if is_byte_range_valid(start, end, length):
             return start, min(end, length)
 
-- 
2.43.0


From 28399bacb96dad6010aaa41f732d02ea2b30c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:17 +0000
Subject: [PATCH 37/89] fix: content range lengths are ASCII digits

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 980be09..3ab2b59 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -258,7 +258,7 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdigit():
+    elif _is_number(length):
         length = int(length)
     else:
         return None
-- 
2.43.0


From 43e6c2ffd92a66bcfbaa58118209a908e8ad4f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:21 +0000
Subject: [PATCH 38/89] fix: challenge parameters without a value are written
 without one

---
 verktyg/http/auth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/http/auth.py b/verktyg/http/auth.py
index 8a280f2..6ca4e22 100644
--- a/verktyg/http/auth.py
+++ b/verktyg/http/auth.py
@@ -180,6 +180,7 @@ class WWWAuthenticate(datastructures.UpdateDictMixin, dict):
         d = dict(self)
         auth_type = d.pop('__auth_type__', None) or 'basic'
         return '%s %s' % (auth_type.title(), ', '.join([
+            key if value is None else
             '%s=%s' % (key, quote_header_value(
                 value, allow_token=key not in self._require_quoting
             ))
-- 
2.43.0


From 2b9bd371f5aa5cee30f896774dd61ad5aaeb059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:24 +0000
Subject: [PATCH 39/89] fix: merging into a header view with |= updates the
 header

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 8349ea4..b423f80 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -229,6 +229,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From f59065630e1293c49b54ebf9231a27b46b79d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:27 +0000
Subject: [PATCH 40/89] fix: setting an absent cache control directive to None
 does nothing

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 3ab2b59..e91ba69 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -338,7 +338,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From 4bc3c561ee4c21d259e9a6178133ff6423c00894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:29 +0000
Subject: [PATCH 41/89] fix: HeaderSet.remove ignores the case of its argument

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 38ab2d3..6a053c4 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -994,8 +994,8 @@ class HeaderSet(object):
         if key not in self._set:
             raise KeyError(header)
         self._set.remove(key)
-        for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+        for idx, item in enumerate(self._headers):
+            if item.lower() == key:
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From 5003edf4d5c45613d3d01eb5a8a95945968737c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:11 +0000
Subject: [PATCH 42/89] fix: header sets list every item once

---
 verktyg/http/basic.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 6a053c4..1de1f3a 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -975,8 +975,10 @@ class HeaderSet(object):
     """
 
     def __init__(self, headers=None, on_update=None):
-        self._headers = list(headers or ())
-        self._set = set([x.lower() for x in self._headers])
+        self._headers = []
+        self._set = set()
+        self.on_update = None
+        self.update(headers or ())
         self.on_update = on_update
 
     def add(self, header):
@@ -1086,10 +1088,17 @@ class HeaderSet(object):
             self.on_update(self)
 
     def __setitem__(self, idx, value):
-        old = self._headers[idx]
-        self._set.remove(old.lower())
+        key = value.lower()
+        self._set.remove(self._headers[idx].lower())
         self._headers[idx] = value
-        self._set.add(value.lower())
+        if key in self._set:
+            # the value is already listed elsewhere, keep it only here
+            idx = range(len(self._headers))[idx]
+            self._headers = [
+                item for pos, item in enumerate(self._headers)
+                if pos == idx or item.lower() != key
+            ]
+        self._set.add(key)
         if self.on_update is not None:
             self.on_update(self)
 
-- 
2.43.0


From 1548b4bc231c7119bc77b28f4d0b6f98d083b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:14 +0000
Subject: [PATCH 43/89] fix: reading the content range does not change the
 header

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index e91ba69..1d69862 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -167,8 +167,9 @@ class ContentRange(object):
     def __init__(self, units, start, stop, length=None, on_update=None):
         if not is_byte_range_valid(start, stop, length):
             raise ValueError('Bad range provided')
-        self.on_update = on_update
+        self.on_update = None
         self.set(start, stop, length, units)
+        self.on_update = on_update
 
     def _callback_property(name):
         def fget(self):
-- 
2.43.0


From b47a76f43cb8d6ff5805ddc23ab258224412daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:00 +0000
Subject: [PATCH 44/89] fix: setting start and stop of a content range one by
 one

---
 verktyg/http/cache_control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 1d69862..669ecc0 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -177,7 +177,10 @@ class ContentRange(object):
 
         def fset(self, value):
             setattr(self, name, value)
-            if self.on_update is not None:
+            # ranges can be invalid while start and stop are set one by one
+            if self.on_update is not None and is_byte_range_valid(
+                self._start, self._stop, self._length
+            ):
                 self.on_update(self)
         return property(fget, fset)
 
-- 
2.43.0


From f611bb3fa804033343f7638edb6911d4e7a69aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:44 +0000
Subject: [PATCH 45/89] fix: a cookie without a value no longer swallows the
 cookie after it

---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..8c2561d 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,7 +39,7 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
+    (?P<key>[^=;]+)
     \s*=\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
-- 
2.43.0


From 614f0ad03853ba9b3e7f89c328199a86060fa92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:47 +0000
Subject: [PATCH 46/89] fix: parse_cookie follows its errors argument

---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 8c2561d..aede082 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From c0d0a930ab0b9aa110497ccccec8451b17837667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 47/89] fix: a semicolon in a cookie path cannot add attributes

---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index aede082..e6e8efd 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -240,7 +240,7 @@ def dump_cookie(
     value = value.encode(charset)
 
     if path is not None:
-        path = iri_to_uri(path)
+        path = iri_to_uri(path).replace(';', '%3B')
     domain = _make_cookie_domain(domain)
     if isinstance(max_age, timedelta):
         max_age = (max_age.days * 60 * 60 * 24) + max_age.seconds
-- 
2.43.0


From 7e9187b0d3fdcd144d381f88d60bdf62050bc356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:01 +0000
Subject: [PATCH 48/89] fix: negative read sizes do not read past the limit of
 a stream

---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 3f2f1d7..11f8823 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -869,7 +869,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # negative for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -885,7 +885,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
-- 
2.43.0


From e5806fe2c48ecac0fffb5686ef29cf797829ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 49/89] fix: readlines ends when a disconnect is answered with
 an empty line

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 11f8823..f7694a2 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -915,7 +915,10 @@ class LimitedStream(object):
                 size -= last_pos - self._pos
             if self._pos >= end:
                 break
-            result.append(self.readline(size))
+            line = self.readline(size)
+            if not line:
+                break
+            result.append(line)
             if size is not None:
                 last_pos = self._pos
         return result
-- 
2.43.0


From f6523ff92956de848311df75fea77a8c58f8d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 50/89] fix: make_line_iter works on streams of bytes

---
 verktyg/wsgi.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index f7694a2..f233457 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -700,29 +700,39 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
-            new_data = next(_iter, '')
+            new_data = next(_iter, empty)
             if not new_data:
                 break
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From 9c86926d0c5f480a8900c6d759bc47748c0f829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 51/89] fix: make_chunk_iter finds separators that cross a
 buffer boundary

---
 verktyg/wsgi.py | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index f233457..7c1727e 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -9,7 +9,6 @@
     :license:
         BSD, see LICENSE for more details.
 """
-import re
 import os
 from io import BytesIO
 import sys
@@ -762,30 +761,22 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
     if not first_item:
         return
 
-    _iter = chain((first_item,), _iter)
-    if isinstance(first_item, str):
-        _split = re.compile(r'(%s)' % re.escape(separator)).split
-        _join = ''.join
-    else:
-        _split = re.compile(b'(' + re.escape(separator) + b')').split
-        _join = b''.join
-
+    # The end of the data is split again together with the data that follows,
+    # which may complete a separator.
+    empty = tail = first_item[:0]
+    keep = len(separator) - 1
     buffer = []
-    while 1:
-        new_data = next(_iter, '')
-        if not new_data:
-            break
-        chunks = _split(new_data)
-        new_buf = []
-        for item in chain(buffer, chunks):
-            if item == separator:
-                yield _join(new_buf)
-                new_buf = []
-            else:
-                new_buf.append(item)
-        buffer = new_buf
-    if buffer:
-        yield _join(buffer)
+    for new_data in chain((first_item,), _iter):
+        chunks = (tail + new_data).split(separator)
+        for item in chunks[:-1]:
+            buffer.append(item)
+            yield empty.join(buffer)
+            buffer = []
+        split_at = max(0, len(chunks[-1]) - keep)
+        buffer.append(chunks[-1][:split_at])
+        tail = chunks[-1][split_at:]
+    buffer.append(tail)
+    yield empty.join(buffer)
 
 
 class LimitedStream(object):
-- 
2.43.0


From 7c55231a846c3860c672aa9bb7edf1da5bff09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:19 +0000
Subject: [PATCH 52/89] fix: URL conversions keep port zero

---
 verktyg/urls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..4d5b22d 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -133,7 +133,7 @@ def uri_to_iri(uri, errors='replace'):
 
     netloc = host
 
-    if uri.port:
+    if uri.port is not None:
         if not 0 <= int(uri.port) <= 65535:
             raise ValueError('Invalid port')
         netloc = '%s:%s' % (netloc, uri.port)
@@ -179,7 +179,7 @@ def _encode_netloc(components):
 
     netloc = host
 
-    if components.port:
+    if components.port is not None:
         if not 0 <= int(components.port) <= 65535:
             raise ValueError('Invalid port')
         netloc = '%s:%s' % (netloc, components.port)
-- 
2.43.0


From d355ba71a6bae52ee76d3e8a8e5cb508c75aa367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:22 +0000
Subject: [PATCH 53/89] fix: a path with two leading slashes is not turned into
 a host name

---
 verktyg/urls.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 4d5b22d..b31a7ee 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -20,6 +20,14 @@ _hextobyte = dict(
 )
 
 
+def _urlunsplit(parts):
+    scheme, netloc, path, query, fragment = parts
+    if not netloc and path.startswith('//'):
+        # an explicit empty host, so that the path is not taken for one
+        path = '//' + path
+    return urlunsplit((scheme, netloc, path, query, fragment))
+
+
 def _safe_urlunquote_to_bytes(string, unsafe=''):
     if isinstance(string, str):
         string = string.encode('utf-8')
@@ -165,7 +173,7 @@ def uri_to_iri(uri, errors='replace'):
     fragment = _safe_urlunquote(
         uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
     )
-    return urlunsplit(
+    return _urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
     )
 
@@ -239,7 +247,7 @@ def iri_to_uri(iri):
         iri.fragment, safe='=%&[]:;$()+,!?*/'
     )
 
-    return urlunsplit(
+    return _urlunsplit(
         (iri.scheme, netloc, path, query, fragment)
     )
 
@@ -285,6 +293,6 @@ def url_fix(s, charset='utf-8'):
         url.fragment, encoding=charset, safe=':&%=+$!*\'(),'
     )
 
-    return urlunsplit(
+    return _urlunsplit(
         (url.scheme, netloc, path, qs, anchor)
     )
-- 
2.43.0


From 86c39ef9e0c5cafe9b94a1d3c09cbcebeedd46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:25 +0000
Subject: [PATCH 54/89] fix: uri_to_iri does not decode delimiters, spaces and
 control characters

---
 verktyg/urls.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index b31a7ee..2f92c54 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -20,6 +20,11 @@ _hextobyte = dict(
 )
 
 
+#: characters that stay quoted everywhere in an IRI: control characters, the
+#: space and the percent sign.
+_unsafe = ''.join(chr(c) for c in range(33)) + '%\x7f'
+
+
 def _urlunsplit(parts):
     scheme, netloc, path, query, fragment = parts
     if not netloc and path.startswith('//'):
@@ -149,14 +154,14 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict', unsafe=_unsafe + '/:@?#[]'
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict', unsafe=_unsafe + '/:@?#[]'
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -164,14 +169,18 @@ def uri_to_iri(uri, errors='replace'):
 
         netloc = '%s@%s' % (auth, netloc)
 
+    path_unsafe = _unsafe + '/;?#'
+    if not uri.scheme and not netloc:
+        # an unquoted colon would turn the path into a scheme
+        path_unsafe += ':'
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe=path_unsafe
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe=_unsafe + ';/?:@&=+,$#'
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe=_unsafe + ';/?:@&=+,$#'
     )
     return _urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From 0007f7c98522f8fdf947ed74f0ab9639bfd63811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:07 +0000
Subject: [PATCH 55/89] fix: iri_to_uri leaves the reserved characters of a
 plain URL alone

---
 verktyg/urls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 2f92c54..e354602 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -204,14 +204,14 @@ def _encode_netloc(components):
     if components.username or components.password:
         if components.username:
             username = urlquote(
-                components.username, safe='/:%'
+                components.username, safe='/:%!$&\'()*+,;='
             )
         else:
             username = ''
 
         if components.password:
             password = urlquote(
-                components.password, safe='/:%'
+                components.password, safe='/:%!$&\'()*+,;='
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -247,13 +247,13 @@ def iri_to_uri(iri):
     netloc = _encode_netloc(iri)
 
     path = urlquote(
-        iri.path, safe='/:~+%'
+        iri.path, safe='/:~+%!$&\'()*,;=@'
     )
     query = urlquote(
-        iri.query, safe='%&[]:;$*()+,!?*/='
+        iri.query, safe='%&[]:;$*()+,!?*/=\'@'
     )
     fragment = urlquote(
-        iri.fragment, safe='=%&[]:;$()+,!?*/'
+        iri.fragment, safe='=%&[]:;$()+,!?*/\'@'
     )
 
     return _urlunsplit(
-- 
2.43.0


From b1da2a3fae2dc97ef2286c6acf0e07a0bc1f3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:35 +0000
Subject: [PATCH 56/89] fix: accept a list of disallow rules in
 SharedDataMiddleware

---
 verktyg/wsgi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 7c1727e..c63021f 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -398,7 +398,12 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            rules = list(disallow)
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in rules
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From 0c4b01232b3c4c23e24f2af658eff7eee2f6e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 57/89] fix: SharedDataMiddleware answers 304 only to GET and
 HEAD

---
 verktyg/wsgi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index c63021f..e261f60 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -507,7 +507,9 @@ class SharedDataMiddleware(object):
                 ('Etag', '"%s"' % etag),
                 ('Cache-Control', 'max-age=%d, public' % timeout)
             ]
-            if not is_resource_modified(environ, etag, last_modified=mtime):
+            if environ['REQUEST_METHOD'] in ('GET', 'HEAD') and (
+                not is_resource_modified(environ, etag, last_modified=mtime)
+            ):
                 f.close()
                 start_response('304 Not Modified', headers)
                 return []
-- 
2.43.0


From 2117d4a835c0432fc66c2dbba51dbe5ddb347a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 58/89] fix: SharedDataMiddleware does not open directories of
 packages

---
 verktyg/wsgi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index e261f60..90ee05c 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -436,7 +436,9 @@ class SharedDataMiddleware(object):
             if path is None:
                 return None, None
             path = posixpath.join(package_path, path)
-            if not provider.has_resource(path):
+            if not provider.has_resource(path) or (
+                provider.resource_isdir(path)
+            ):
                 return None, None
             basename = posixpath.basename(path)
             if filesystem_bound:
-- 
2.43.0


From 971417de17edd3b3c4bf0321ba40bb3aa5ca3493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 59/89] fix: subdomains of a trusted host no longer raise
 TypeError

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 90ee05c..15fcfdf 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -133,7 +133,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From e736302d0b9bcb67f446609a5f6fd6bf8f176e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 60/89] fix: a host with another address, a path or a user name
 in it is not trusted

---
 verktyg/wsgi.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 15fcfdf..6d83ca1 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -10,6 +10,7 @@
         BSD, see LICENSE for more details.
 """
 import os
+import re
 from io import BytesIO
 import sys
 import posixpath
@@ -28,6 +29,15 @@ from verktyg.http import (
 )
 
 
+_port_re = re.compile(r':[0-9]*\Z')
+
+# A host name or bracketed address.  Text in which a URL parser would find the
+# end of the host, a port or a user name is neither.
+_host_re = re.compile(
+    br'(\[[^\[\]/?#@\\\x00-\x20\x7f]*\]|[^\[\]:/?#@\\\x00-\x20\x7f]*)\Z'
+)
+
+
 def wsgi_decoding_dance(s, charset='utf-8', errors='replace'):
     return s.encode('latin1').decode(charset, errors)
 
@@ -119,11 +129,15 @@ def host_is_trusted(hostname, trusted_list):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname:
-            hostname = hostname.rsplit(':', 1)[0]
-        return encode_idna(hostname)
+        try:
+            hostname = encode_idna(_port_re.sub('', hostname))
+        except UnicodeError:
+            return None
+        return hostname if _host_re.match(hostname) else None
 
     hostname = _normalize(hostname)
+    if hostname is None:
+        return False
     for ref in trusted_list:
         if ref.startswith('.'):
             ref = ref[1:]
@@ -131,6 +145,8 @@ def host_is_trusted(hostname, trusted_list):
         else:
             suffix_match = False
         ref = _normalize(ref)
+        if ref is None:
+            continue
         if ref == hostname:
             return True
         if suffix_match and hostname.endswith(b'.' + ref):
-- 
2.43.0


From 72cd301f06e9998194e34d20924b5c28e1a73d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:44 +0000
Subject: [PATCH 61/89] fix: is_secure always returned None

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..216a995 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ.get('wsgi.url_scheme') == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From 812fa806a1306c6b39d27ebeff0c1470b7a24ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:47 +0000
Subject: [PATCH 62/89] fix: max_forwards raised TypeError without the header

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 216a995..2c9ea7b 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -615,7 +615,7 @@ class CommonRequestDescriptorsMixin(object):
         that can forward the request to the next inbound server.
         """
         try:
-            return int(self.environ.get('HTTP_MAX_FORWARDS'))
+            return int(self.environ.get('HTTP_MAX_FORWARDS', ''))
         except ValueError:
             return None
 
-- 
2.43.0


From e35f514de7f9fea1810b62e8117e7155a38bceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:51 +0000
Subject: [PATCH 63/89] fix: request arguments with blank values were dropped

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 2c9ea7b..056d628 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -267,7 +267,7 @@ class BaseRequest(object):
             errors=self.encoding_errors,
         )
         return self.parameter_storage_class(parse_qsl(
-            qs, errors=self.encoding_errors,
+            qs, keep_blank_values=True, errors=self.encoding_errors,
         ))
 
     def get_data(self, cache=True, as_text=False):
-- 
2.43.0


From f9a330aff436df700b9ffa13d9ebf66031fdb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:55 +0000
Subject: [PATCH 64/89] fix: comparing EnvironHeaders to something else raised
 AttributeError

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 6d83ca1..1c4b410 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -301,7 +301,10 @@ class EnvironHeaders(http.ImmutableHeadersMixin, http.Headers):
         self.environ = environ
 
     def __eq__(self, other):
-        return self.environ is other.environ
+        return (
+            isinstance(other, EnvironHeaders) and
+            self.environ is other.environ
+        )
 
     def __getitem__(self, key, _get_mode=False):
         # _get_mode is a no-op for this class as there is no index but
-- 
2.43.0


From 477424563e9025d518cc070b1435ea07e2d1f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:34 +0000
Subject: [PATCH 65/89] fix: threads saw an empty or unsorted route table while
 it was updated

---
 verktyg/routing.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index e95e8a6..0747da0 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 from decimal import Decimal
+from threading import RLock
 import posixpath
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
@@ -1052,6 +1053,10 @@ class URLMap(object):
 
     default_converters = ImmutableDict(DEFAULT_CONVERTERS)
 
+    #: Held while the route tables are replaced.  Tables that have been
+    #: published are never modified, so that reading them needs no lock.
+    _update_lock = RLock()
+
     def __init__(
         self, routes=None, default_subdomain='', charset='utf-8',
         strict_slashes=True, redirect_defaults=True,
@@ -1060,6 +1065,7 @@ class URLMap(object):
     ):
         self._routes = []
         self._routes_by_endpoint = {}
+        self._new_routes = []
         self._remap = True
 
         self.default_subdomain = default_subdomain
@@ -1118,14 +1124,14 @@ class URLMap(object):
         :param routefactory:
             A :class:`Route` or :class:`RouteFactory`
         """
+        routes = []
         for factory in factories:
             for route in factory.get_routes(self):
                 route.bind(self)
-                self._routes.append(route)
-                self._routes_by_endpoint.setdefault(
-                    route.endpoint, []
-                ).append(route)
-        self._remap = True
+                routes.append(route)
+        with self._update_lock:
+            self._new_routes.extend(routes)
+            self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
@@ -1257,10 +1263,27 @@ class URLMap(object):
         """Called before matching and building to keep the compiled routes
         in the correct order after things changed.
         """
-        if self._remap:
-            self._routes.sort(key=lambda x: x.match_compare_key())
-            for routes in self._routes_by_endpoint.values():
+        if not self._remap:
+            return
+        with self._update_lock:
+            if not self._remap:
+                return
+            routes_by_endpoint = {
+                endpoint: list(routes)
+                for endpoint, routes in self._routes_by_endpoint.items()
+            }
+            for route in self._new_routes:
+                routes_by_endpoint.setdefault(
+                    route.endpoint, []
+                ).append(route)
+            for routes in routes_by_endpoint.values():
                 routes.sort(key=lambda x: x.build_compare_key())
+            self._routes_by_endpoint = routes_by_endpoint
+            self._routes = sorted(
+                self._routes + self._new_routes,
+                key=lambda x: x.match_compare_key(),
+            )
+            self._new_routes = []
             self._remap = False
 
     def __repr__(self):
-- 
2.43.0


From 4e0585a0bedfbec955a66c24850ac51488f5f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:56 +0000
Subject: [PATCH 66/89] fix: multipart text fields were written before their
 headers, and raised TypeError

---
 verktyg/test.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..63e8ce3 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -98,12 +98,13 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
+                if not isinstance(value, (str, bytes)):
+                    value = str(value)
+                write('\r\n\r\n')
                 if isinstance(value, str):
                     write(value)
                 else:
                     write_binary(value)
-                write('\r\n\r\n')
-                write_binary(value)
             write('\r\n')
     write('--%s--\r\n' % boundary)
 
-- 
2.43.0


From 372102f191c86e16eb5bfa85879fa101e3c0db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:10 +0000
Subject: [PATCH 67/89] fix: query arguments and form fields of the test client
 lost all but the last value

---
 verktyg/test.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 63e8ce3..47d3b0c 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -24,7 +24,9 @@ from urllib.request import Request
 from http.cookiejar import CookieJar
 
 from verktyg.urls import url_fix, iri_to_uri
-from verktyg.datastructures import MultiDict, CombinedMultiDict
+from verktyg.datastructures import (
+    MultiDict, CombinedMultiDict, iter_multi_items,
+)
 from verktyg.http import Headers, FileStorage, dump_cookie
 from verktyg.wsgi import (
     get_host, get_current_url, ClosingIterator, wsgi_encoding_dance,
@@ -486,7 +488,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(iter_multi_items(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -572,7 +576,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(iter_multi_items(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From 2bbcd7c5b1047a98c1be9d3c7928ad4ec19b6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:13 +0000
Subject: [PATCH 68/89] fix: redirects of the test client to a subdomain raised
 AttributeError

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 47d3b0c..8a36abc 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -726,7 +726,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From 370b8005c8d4b2f1ed8e4f903dd4508a74012476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:17 +0000
Subject: [PATCH 69/89] fix: the test client took relative redirects for
 external ones

---
 verktyg/test.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 8a36abc..110643c 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -17,7 +17,9 @@ from random import random
 from itertools import chain
 from tempfile import TemporaryFile
 from io import BytesIO
-from urllib.parse import urlencode, urlunsplit, urlsplit, unquote as urlunquote
+from urllib.parse import (
+    urlencode, urljoin, urlunsplit, urlsplit, unquote as urlunquote,
+)
 
 from urllib.request import Request
 
@@ -810,7 +812,9 @@ class Client(object):
                 not follow_redirects
             ):
                 break
-            new_location = response[2]['location']
+            new_location = urljoin(
+                get_current_url(environ), response[2]['location']
+            )
 
             new_redirect_entry = (new_location, status_code)
             if new_redirect_entry in redirect_chain:
-- 
2.43.0


From 5e32d2a8be62db396e7864e6fb507f09def36e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:19 +0000
Subject: [PATCH 70/89] fix: the test client turned HEAD into GET when
 redirected and did not follow status 308

---
 verktyg/test.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 110643c..4e7234b 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -740,9 +740,8 @@ class Client(object):
             ).format(cls=self.__class__))
 
         status_code = int(response[1].split(None, 1)[0])
-        if status_code == 307:
-            method = environ['REQUEST_METHOD']
-        else:
+        method = environ['REQUEST_METHOD']
+        if status_code not in (307, 308) and method != 'HEAD':
             method = 'GET'
 
         # For redirect handling we temporarily disable the response
@@ -808,7 +807,7 @@ class Client(object):
         while 1:
             status_code = int(response[1].split(None, 1)[0])
             if (
-                status_code not in (301, 302, 303, 305, 307) or
+                status_code not in (301, 302, 303, 305, 307, 308) or
                 not follow_redirects
             ):
                 break
-- 
2.43.0


From f93154419f15743cc9dc030577be7d3a157ec5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:41 +0000
Subject: [PATCH 71/89] fix: the test client lost the script root when
 redirected

---
 verktyg/test.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 4e7234b..79108cc 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -721,8 +721,16 @@ class Client(object):
         """Resolves a single redirect and triggers the request again
         directly on this redirect client.
         """
-        scheme, netloc, script_root, qs, anchor = urlsplit(new_location)
-        base_url = urlunsplit((scheme, netloc, '', '', '')).rstrip('/') + '/'
+        scheme, netloc, path, qs, anchor = urlsplit(iri_to_uri(new_location))
+
+        # keep the script root if the target is below it
+        script_root = ''
+        root = urlsplit(iri_to_uri(get_current_url(environ, True))).path
+        if (path + '/').startswith(root):
+            script_root = root.rstrip('/')
+            path = path[len(script_root):]
+        base_url = urlunsplit((scheme, netloc, script_root, '', ''))
+        base_url = base_url.rstrip('/') + '/'
 
         cur_server_name = netloc.split(':', 1)[0].split('.')
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
@@ -751,7 +759,7 @@ class Client(object):
         self.response_wrapper = None
         try:
             return self.open(
-                path=script_root, base_url=base_url,
+                path=path, base_url=base_url,
                 query_string=qs, as_tuple=True,
                 buffered=buffered, method=method,
             )
-- 
2.43.0


From daaff5d27acba93a74298ee535c6a9a2fc7ca781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 72/89] fix: run_wsgi_app raised TypeError for errors with a
 replaced traceback

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 79108cc..e20f1d8 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -935,7 +935,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
-- 
2.43.0


From ae7dd86d0a701e7685d6f21cbb72d68ca5f4a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 73/89] fix: run_wsgi_app lost what a buffered application
 wrote

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index e20f1d8..1d71f5a 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -948,10 +948,12 @@ def run_wsgi_app(app, environ, buffered=False):
     # application iterator into a regular list
     if buffered:
         try:
-            app_iter = list(app_iter)
+            for item in app_iter:
+                buffer.append(item)
         finally:
             if close_func is not None:
                 close_func()
+        app_iter = buffer
 
     # otherwise we iterate the application iter until we have a response, chain
     # the already received data with the already collected data and wrap it in
-- 
2.43.0


From a920b96bcd89eb6c57ef788495c1a305c91fdbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:09 +0000
Subject: [PATCH 74/89] fix: run_wsgi_app failed on applications with an empty
 body, and did not close those that failed

---
 verktyg/test.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 1d71f5a..84ba8c9 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -960,8 +960,16 @@ def run_wsgi_app(app, environ, buffered=False):
     # a new `ClosingIterator` if we need to restore a `close` callable from the
     # original return value.
     else:
-        while not response:
-            buffer.append(next(app_iter))
+        try:
+            while not response:
+                buffer.append(next(app_iter))
+        except StopIteration:
+            if not response:
+                raise
+        except Exception:
+            if close_func is not None:
+                close_func()
+            raise
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From d4e008098baa236967f3723150a215eec24639ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:12 +0000
Subject: [PATCH 75/89] fix: the test client sent only the last of several
 headers of one name

---
 verktyg/test.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 84ba8c9..d480c81 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -617,8 +617,12 @@ class EnvironBuilder(object):
             'wsgi.multiprocess': self.multiprocess,
             'wsgi.run_once': self.run_once
         })
+        headers = {}
         for key, value in self.headers.to_wsgi_list():
-            result['HTTP_%s' % key.upper().replace('-', '_')] = value
+            key = 'HTTP_%s' % key.upper().replace('-', '_')
+            headers.setdefault(key, []).append(value)
+        for key, values in headers.items():
+            result[key] = ', '.join(values)
         if self.environ_overrides:
             result.update(self.environ_overrides)
         return result
-- 
2.43.0


From 9940a991ce4e648efe1a353783462aedbbdb2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:14 +0000
Subject: [PATCH 76/89] fix: the test client sent cookies to other hosts, paths
 and schemes than they were set for

---
 verktyg/test.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index d480c81..96cfcb8 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -170,11 +170,10 @@ class _TestCookieJar(CookieJar):
         """Inject the cookies as client headers into the server's wsgi
         environment.
         """
-        cvals = []
-        for cookie in self:
-            cvals.append('%s=%s' % (cookie.name, cookie.value))
-        if cvals:
-            environ['HTTP_COOKIE'] = '; '.join(cvals)
+        request = Request(get_current_url(environ))
+        self.add_cookie_header(request)
+        if request.has_header('Cookie'):
+            environ['HTTP_COOKIE'] = request.get_header('Cookie')
 
     def extract_wsgi(self, environ, headers):
         """Extract the server's set-cookie headers as cookies into the
-- 
2.43.0


From 23a12432dd3517728c84a82860332592cf2743d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 77/89] fix: the test client did not close the responses it was
 redirected by

---
 verktyg/test.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index 96cfcb8..ed24b6b 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -830,6 +830,9 @@ class Client(object):
             if new_redirect_entry in redirect_chain:
                 raise ClientRedirectError('loop detected')
             redirect_chain.append(new_redirect_entry)
+            close_func = getattr(response[0], 'close', None)
+            if close_func is not None:
+                close_func()
             environ, response = self.resolve_redirect(
                 response, new_location, environ, buffered=buffered,
             )
-- 
2.43.0


From d2571895b3ed831dc30fb839c0115549efeaf727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 78/89] fix: form data of the test client were dropped if the
 content type had parameters

---
 verktyg/test.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index ed24b6b..3945980 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -29,7 +29,9 @@ from verktyg.urls import url_fix, iri_to_uri
 from verktyg.datastructures import (
     MultiDict, CombinedMultiDict, iter_multi_items,
 )
-from verktyg.http import Headers, FileStorage, dump_cookie
+from verktyg.http import (
+    Headers, FileStorage, dump_cookie, parse_options_header,
+)
 from verktyg.wsgi import (
     get_host, get_current_url, ClosingIterator, wsgi_encoding_dance,
 )
@@ -563,6 +565,8 @@ class EnvironBuilder(object):
         input_stream = self.input_stream
         content_length = self.content_length
         content_type = self.content_type
+        mimetype, options = parse_options_header(content_type)
+        mimetype = mimetype.lower()
 
         if input_stream is not None:
             start_pos = input_stream.tell()
@@ -570,13 +574,17 @@ class EnvironBuilder(object):
             end_pos = input_stream.tell()
             input_stream.seek(start_pos)
             content_length = end_pos - start_pos
-        elif content_type == 'multipart/form-data':
+        elif mimetype == 'multipart/form-data':
             values = CombinedMultiDict([self.form, self.files])
             input_stream, content_length, boundary = (
-                stream_encode_multipart(values, charset=self.charset)
+                stream_encode_multipart(
+                    values, boundary=options.get('boundary'),
+                    charset=self.charset,
+                )
             )
-            content_type += '; boundary="%s"' % boundary
-        elif content_type == 'application/x-www-form-urlencoded':
+            if not options.get('boundary'):
+                content_type += '; boundary="%s"' % boundary
+        elif mimetype == 'application/x-www-form-urlencoded':
             values = urlencode(
                 list(iter_multi_items(self.form)), encoding=self.charset
             )
-- 
2.43.0


From b060c4acac2675cd6f210341429add8af09522f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:06 +0000
Subject: [PATCH 79/89] fix: escapes that are not UTF-8 were replaced in the
 path of test requests

---
 verktyg/test.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 3945980..206848f 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -18,7 +18,7 @@ from itertools import chain
 from tempfile import TemporaryFile
 from io import BytesIO
 from urllib.parse import (
-    urlencode, urljoin, urlunsplit, urlsplit, unquote as urlunquote,
+    urlencode, urljoin, urlunsplit, urlsplit, unquote_to_bytes,
 )
 
 from urllib.request import Request
@@ -599,9 +599,7 @@ class EnvironBuilder(object):
             result.update(self.environ_base)
 
         def _path_encode(x):
-            return wsgi_encoding_dance(
-                urlunquote(x, self.charset), self.charset
-            )
+            return unquote_to_bytes(x).decode('latin-1')
 
         qs = wsgi_encoding_dance(self.query_string)
 
-- 
2.43.0


From 7681b376f100af8a31d5f925dfcb66d25dcbfdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:00 +0000
Subject: [PATCH 80/89] fix: the last response of a redirect loop was not
 closed by the test client

---
 verktyg/test.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 206848f..c5fb3c6 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -832,13 +832,14 @@ class Client(object):
                 get_current_url(environ), response[2]['location']
             )
 
+            close_func = getattr(response[0], 'close', None)
+            if close_func is not None:
+                close_func()
+
             new_redirect_entry = (new_location, status_code)
             if new_redirect_entry in redirect_chain:
                 raise ClientRedirectError('loop detected')
             redirect_chain.append(new_redirect_entry)
-            close_func = getattr(response[0], 'close', None)
-            if close_func is not None:
-                close_func()
             environ, response = self.resolve_redirect(
                 response, new_location, environ, buffered=buffered,
             )
-- 
2.43.0


From 8287c7a8b4012da23676a82f01cda9274d3fd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 81/89] fix: append_slash_redirect took text of the path for a
 scheme, host or query

---
 verktyg/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..745506f 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -15,6 +15,7 @@ import re
 import os
 
 from html import escape
+from urllib.parse import quote as urlquote
 
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
@@ -228,8 +229,16 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
-    query_string = environ.get('QUERY_STRING')
+    from verktyg.wsgi import get_query_string, wsgi_get_bytes
+
+    # the path in the environment is not quoted.  Nothing in it may be taken
+    # for a scheme, a host or a query.
+    new_path = '/'.join(filter(None, (
+        environ.get('SCRIPT_NAME', '').strip('/'),
+        environ.get('PATH_INFO', '').strip('/'),
+    )))
+    new_path = urlquote(wsgi_get_bytes('/%s/' % new_path if new_path else '/'))
+    query_string = get_query_string(environ)
     if query_string:
         new_path += '?' + query_string
     return redirect(new_path, code)
-- 
2.43.0


From 2f94590934002f21d30c905eb7bc5eb66a05ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:00 +0000
Subject: [PATCH 82/89] fix: Retry-After with an unreadable or too large number
 raised an error when read

---
 verktyg/responses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 6a3bf1f..4b5d218 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -917,7 +917,10 @@ class CommonResponseDescriptorsMixin(object):
         if value is None:
             return
         elif value.isdigit():
-            return datetime.utcnow() + timedelta(seconds=int(value))
+            try:
+                return datetime.utcnow() + timedelta(seconds=int(value))
+            except (ValueError, OverflowError):
+                return None
         return parse_date(value)
 
     def _set_retry_after(self, value):
-- 
2.43.0


From fc032bf34037c89f720bfe6b77d36714dc2460f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 83/89] fix: redirects of an application without a public
 address could lead to another site or begin with ':'

---
 verktyg/routing.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 0747da0..f6439ce 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1424,12 +1424,11 @@ class MapAdapter(object):
                         redirect_url = './' + redirect_url
                 else:
                     redirect_url = route.redirect_to(self, **rv)
-                raise RequestRedirect(str(urljoin('%s://%s%s%s' % (
-                    self.url_scheme,
-                    self.subdomain and self.subdomain + '.' or '',
-                    self.server_name,
-                    self.script_name
-                ), redirect_url)))
+                # without a server name the target stays relative
+                base_url = self.server_name and self.make_redirect_url('')
+                raise RequestRedirect(str(
+                    urljoin(base_url or '', redirect_url)
+                ))
 
             if return_route:
                 return route, rv
@@ -1510,12 +1509,17 @@ class MapAdapter(object):
 
         :internal:
         """
+        host = self.get_host(domain_part)
+        path = posixpath.join(
+            self.script_name.strip('/'), path_info.lstrip('/')
+        )
+        if not host:
+            # the path must not be taken for a scheme or another host
+            path = './' + path
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
-            netloc=self.get_host(domain_part),
-            path=posixpath.join(
-                self.script_name.strip('/'), path_info.lstrip('/')
-            ),
+            netloc=host,
+            path=path,
             query=self.encode_query_args(query_args) if query_args else '',
             params=None, fragment=None
         ))
-- 
2.43.0


From f7252a6f774813f463aa21d96407a032fd24da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 84/89] fix: iterating an uploaded file never ended

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 1de1f3a..f56601e 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -951,7 +951,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From 2bf76ab186fcd1264eb9e4cd37d3a9e0c815363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 85/89] fix: a file without a name could not be wrapped in
 FileStorage

---
 verktyg/http/basic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index f56601e..c77b698 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -858,6 +858,11 @@ class FileStorage(object):
         if filename is None:
             filename = getattr(stream, 'name', None)
 
+            # files without a name, temporary ones for example, have the
+            # number of their descriptor instead.
+            if not isinstance(filename, (str, bytes)):
+                filename = None
+
             # We want to make sure the filename is always unicode.  This might
             # not be if the name attribute is bytes due to the file being
             # opened from the bytes API.
-- 
2.43.0


From 17d44f7b7c9041782349f7ad57c749c16d09c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:21 +0000
Subject: [PATCH 86/89] fix: reading the length of an uploaded file failed if
 the header was not a number

---
 verktyg/http/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c77b698..4aeb0ab 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -895,7 +895,10 @@ class FileStorage(object):
     @property
     def content_length(self):
         """The content-length sent in the header.  Usually not available"""
-        return int(self.headers.get('content-length') or 0)
+        try:
+            return int(self.headers.get('content-length') or 0)
+        except ValueError:
+            return 0
 
     @property
     def mimetype(self):
-- 
2.43.0


From 049bca570e81208530356354cb46e9451d186acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 87/89] fix: the error raised by abort for a response could not
 be shown as text

---
 verktyg/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index 373d2d5..b4a7082 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -150,7 +150,8 @@ class HTTPException(Exception):
         return HTTP_STATUS_CODES.get(self.code, 'Unknown Error')
 
     def __str__(self):
-        return '%d: %s' % (self.code, self.name)
+        code = self.code if self.code is not None else '???'
+        return '%s: %s' % (code, self.name)
 
     def __repr__(self):
         return '<%s \'%s\'>' % (self.__class__.__name__, self)
-- 
2.43.0


From b3dc24eeb8a69c4aa92f81c3ffd87b1af9164f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 88/89] fix: the test client took the brackets of an IPv6
 address for its name

---
 verktyg/test.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index c5fb3c6..d5cc9f5 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -205,6 +205,15 @@ def _iter_data(data):
                 yield key, values
 
 
+def _split_host(host):
+    """Splits a host into its name and its port.  The colons of an IPv6
+    address, which is in brackets, separate nothing.
+    """
+    address, bracket, rest = host.rpartition(']')
+    name, _, port = rest.partition(':')
+    return address + bracket + name, port
+
+
 class FileMultiDict(MultiDict):
     """A special :class:`MultiDict` that has convenience methods to add
     files to it.  This is used for :class:`EnvironBuilder` and generally
@@ -524,14 +533,14 @@ class EnvironBuilder(object):
     @property
     def server_name(self):
         """The server name (read-only, use :attr:`host` to set)"""
-        return self.host.split(':', 1)[0]
+        return _split_host(self.host)[0]
 
     @property
     def server_port(self):
         """The server port as integer (read-only, use :attr:`host` to set)"""
-        pieces = self.host.split(':', 1)
-        if len(pieces) == 2 and pieces[1].isdigit():
-            return int(pieces[1])
+        port = _split_host(self.host)[1]
+        if port.isdigit():
+            return int(port)
         elif self.url_scheme == 'https':
             return 443
         return 80
@@ -741,8 +750,8 @@ class Client(object):
         base_url = urlunsplit((scheme, netloc, script_root, '', ''))
         base_url = base_url.rstrip('/') + '/'
 
-        cur_server_name = netloc.split(':', 1)[0].split('.')
-        real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
+        cur_server_name = _split_host(netloc)[0].split('.')
+        real_server_name = _split_host(get_host(environ))[0].split('.')
 
         if self.allow_subdomain_redirects:
             allowed = (
-- 
2.43.0


From 58a8b3be6c65db98a2452ef29192fb9253d184fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 89/89] fix: a file described by a dict was sent as text by the
 test client

---
 verktyg/test.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index d5cc9f5..5dbcc46 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -394,6 +394,8 @@ class EnvironBuilder(object):
         """Called in the EnvironBuilder to add files from the data dict."""
         if isinstance(value, tuple):
             self.files.add_file(key, *value)
+        elif isinstance(value, dict):
+            self.files.add_file(key, **value)
         else:
             self.files.add_file(key, value)
 
-- 
2.43.0

