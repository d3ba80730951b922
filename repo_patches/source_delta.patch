From a06274bc88467663ca101bf89b2ae883b79b89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 01/45] fix: report I/O errors of the request stream as
 UnreadablePostError (six.reraise was called with an instance and a value,
 which is a TypeError)

---
 request_parser/http/request.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..313274a 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -16,8 +16,6 @@ from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_ir
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
-from six import reraise as raise_
-
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
 host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
@@ -384,7 +382,7 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
+                raise UnreadablePostError(*e.args)
             
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
@@ -570,14 +568,13 @@ class HttpRequest(object,):
         try:
             return self._stream.read(*args, **kwargs)
         except IOError as e:
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def readline(self, *args, **kwargs):
         try:
             return self._stream.readline(*args, **kwargs)
         except IOError as e:
-            #raise UnreadablePostError(*e.args) from e
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def __iter__(self):
         return iter(self.readline, b'')
-- 
2.43.0


From ed88c561d20a2eed9374cf6b454558b6228272d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 02/45] fix: report I/O errors met while parsing the header or
 a multipart body as UnreadablePostError

---
 request_parser/http/request.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 313274a..bfe0aa9 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -11,7 +11,7 @@ from request_parser.conf.settings import Settings
 from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
-from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
+from request_parser.utils.datastructures import ChunkIter, ImmutableList, MultiValueDict, ImmutableMultiValueDict
 from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
@@ -412,7 +412,7 @@ class HttpRequest(object,):
         #read until we find a '\r\n\r\n' sequence
         request_header_end = -1
         while request_header_end == -1:
-            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)            
+            chunk = self.read(self.settings.MAX_HEADER_SIZE)
             self._request_header_parsed = True
             if not chunk:
                 break
@@ -512,7 +512,7 @@ class HttpRequest(object,):
 
         #body_stream = self.request_stream
         body_stream = self._stream
-        data = body_stream.read(1)
+        data = self.read(1)
 
         #check if the body is empty
         if not data:
@@ -523,7 +523,8 @@ class HttpRequest(object,):
         if self.content_type == 'multipart/form-data':      
             try:
                 #returns POST QueryDict and MultiValueDict for _files
-                self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), body_stream)
+                #the parser reads through self.read(), which reports I/O errors as UnreadablePostError
+                self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), LazyStream(ChunkIter(self)))
             except MultiPartParserError:
                 # An error occurred while parsing POST data. Since when
                 # formatting the error the request handler might access
-- 
2.43.0


From 70af16c891d17b94017d72c7d46d4d7f8c6bd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 03/45] fix: QueryDict copies and fromkeys() pass a settings
 object to the constructor

---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index bfe0aa9..3aee2ab 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -645,7 +645,7 @@ class QueryDict(MultiValueDict):
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        q = cls(Settings.default(), mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -677,13 +677,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From 10250ae0bb8f196adbc383be26b49e318b6fd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 04/45] fix: LazyStream has readline(), which
 HttpRequest.readline() and iteration call, and close() leaves an iterator
 behind

---
 request_parser/utils/datastructures.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..486584d 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -411,6 +411,30 @@ class LazyStream:
         self.position += len(output)
         return output
 
+    def readline(self, size=None):
+        """
+        Return one line including its line break (at most ``size`` bytes of
+        it), or an empty string at the end of the stream.
+        """
+        limit = None if size is None or size < 0 else size
+        parts = []
+        length = 0
+        while limit is None or length < limit:
+            try:
+                chunk = next(self)
+            except StopIteration:
+                break
+            end = chunk.find(b'\n') + 1
+            line = chunk[:end] if end else chunk
+            if limit is not None:
+                line = line[:limit - length]
+            self.unget(chunk[len(line):])
+            parts.append(line)
+            length += len(line)
+            if line.endswith(b'\n'):
+                break
+        return b''.join(parts)
+
     def close(self):
         """
         Used to invalidate/disable this lazy stream.
@@ -418,7 +442,7 @@ class LazyStream:
         Replace the producer with an empty list. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From b2ac7a60d23bf4bbe99b85239817ab19972200c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 05/45] fix: keep a request's charset on the request instead of
 writing it into the shared settings, and let QueryDict use the encoding it is
 given

---
 request_parser/http/multipartparser.py |  2 +-
 request_parser/http/request.py         | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..61c7e98 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -129,7 +129,7 @@ class MultiPartParser:
                 return result[0], result[1]
 
         # Create the data structures to be used later.
-        self._post = QueryDict(self.settings, mutable=True)
+        self._post = QueryDict(self.settings, mutable=True, encoding=self._encoding)
         self._files = MultiValueDict()
 
         # Instantiate the stream:
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 3aee2ab..b0b9904 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -87,6 +87,7 @@ class HttpRequest(object,):
         Helper method to init/reinit an object.
         """
         
+        self._encoding = None
         self.GET = QueryDict(self.settings, mutable=True)
         self.META = {}
 
@@ -186,7 +187,9 @@ class HttpRequest(object,):
 
     @property
     def encoding(self):
-        return self.settings.DEFAULT_CHARSET
+        if self._encoding is None:
+            return self.settings.DEFAULT_CHARSET
+        return self._encoding
 
     @encoding.setter
     def encoding(self, val):
@@ -198,9 +201,10 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
-        self.settings.DEFAULT_CHARSET = val
-        if hasattr(self, 'GET'):
-            del self.GET
+        #the charset belongs to this request, the settings may be shared
+        self._encoding = val
+        if self.META.get(MetaDict.Info.QUERY_STRING):
+            self.GET = QueryDict(self.settings, self.META[MetaDict.Info.QUERY_STRING], encoding=self.encoding)
         if hasattr(self, '_post'):
             del self._post
         if hasattr(self, '_body'):
@@ -482,7 +486,7 @@ class HttpRequest(object,):
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
+        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
 
@@ -617,7 +621,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
-- 
2.43.0


From 1c049d3a5bc4b2a4028225dfbf832bfb56837114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 06/45] fix: ignore a Content-Type charset that is not a text
 codec instead of failing with LookupError or a codec's own error

---
 request_parser/http/request.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b0b9904..f5a1368 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -482,7 +482,9 @@ class HttpRequest(object,):
         if header_dict is not None:        
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
-                    self.encoding = value
+                    #an unknown charset is ignored
+                    if is_text_charset(value):
+                        self.encoding = value
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
@@ -777,6 +779,16 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def is_text_charset(charset):
+    """
+    Return True if charset names a codec between bytes and text which supports
+    error handling.
+    """
+    try:
+        return isinstance(b'\xff'.decode(charset, 'replace'), unicode)
+    except Exception:
+        return False
+
 def split_domain_port(host):
     """
     Return a (domain, port) tuple from a given host.
-- 
2.43.0


From abea34470e16e4e69c8c85f6b3ce9b51f708565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 07/45] fix: keep header lines with non-ASCII bytes as received
 (encoding them with an empty error handler name is a LookupError)

---
 request_parser/http/request.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f5a1368..35597fe 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -842,10 +842,8 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From 8a11dbc12fedaa0f73eebd0c76fe47389e65c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 08/45] fix: refuse an unparsable request URI with
 InvalidHttpRequest

---
 request_parser/http/request.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 35597fe..1e07b49 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -876,7 +876,10 @@ def parse_request_line(request_line=''):
 #    if not method or not uri or not protocol_version:
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
-    request_uri_result = urlparse(uri)
+    try:
+        request_uri_result = urlparse(uri)
+    except ValueError:
+        raise InvalidHttpRequest("Invalid request URI.", 400)
     request_line_result = {}
     request_line_result[MetaDict.ReqLine.SCHEME] = request_uri_result[0]
     request_line_result[MetaDict.ReqLine.DOMAIN] = request_uri_result[1]
-- 
2.43.0


From 561162db67e815e40c57a779631f86ac9a2530b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 09/45] fix: refuse undecodable Content-Type headers and
 missing boundaries with the documented exceptions

---
 request_parser/http/multipartparser.py | 13 ++++++++++---
 request_parser/http/request.py         |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 61c7e98..f233524 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -61,10 +61,13 @@ class MultiPartParser:
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-        content_types, opts = parse_header(content_type.encode('ascii'))
+        try:
+            content_types, opts = parse_header(content_type.encode('ascii'))
+        except ValueError:
+            raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %r' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
@@ -592,7 +595,11 @@ def parse_header(line):
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-                value = unquote(value.decode(), encoding=encoding.decode())
+                try:
+                    value = unquote(value.decode(), encoding=encoding.decode())
+                except Exception:
+                    # the encoding is the client's choice, any codec may be named
+                    raise ValueError("Invalid header parameter: %r" % p)
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 1e07b49..c05fd28 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -477,7 +477,10 @@ class HttpRequest(object,):
         self.path = meta_dict[MetaDict.ReqLine.PATH]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
-        self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
+        try:
+            self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
+        except ValueError:
+            raise InvalidHttpRequest("Invalid Content-Type header.", 400)
         #sanity check for when Content-Type is not present
         if header_dict is not None:        
             for key, value in header_dict.items():
-- 
2.43.0


From 3a6a192a6eaa44294ff53181a5c4a20c17b4a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 10/45] fix: a boundary given in extended notation is encoded
 too, so that it is searched for as bytes

---
 request_parser/http/multipartparser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f233524..18bddf1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -80,9 +80,7 @@ class MultiPartParser:
             # This means we shouldn't continue...raise an error.
             raise MultiPartParserError("Invalid content length: %r" % content_length)
 
-        if isinstance(boundary, str):
-            boundary = boundary.encode('ascii')
-        self._boundary = boundary
+        self._boundary = boundary.encode('ascii')
         self._input_data = input_data
 
         # For compatibility with low-level network APIs (with 32-bit integers),
-- 
2.43.0


From 9c6cd39bcafeb172fe2348553d915471c5b42181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 11/45] fix: keep a malformed base64 field as sent
 (base64.b64decode raises TypeError in Python 2)

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 18bddf1..2b60750 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -190,7 +190,7 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (binascii.Error, TypeError):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From c0f911d18bc0822985e0b11841958dbfb70dd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 12/45] fix: a truncated base64 file part ends with
 MultiPartParserError instead of an endless loop or a TypeError

---
 request_parser/http/multipartparser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 2b60750..bc7cce8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -8,7 +8,6 @@ import base64
 import binascii
 import cgi
 
-from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
 
 from request_parser.conf.settings import Settings
@@ -262,14 +261,16 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
                                 try:
                                     chunk = base64.b64decode(stripped_chunk)
-                                except Exception as exc:
-                                    # Since this is only a chunk, any error is an unfixable error.                                
-                                    raise_from(MultiPartParserError("Could not decode base64 data."), exc)
+                                except Exception:
+                                    # Since this is only a chunk, any error is an unfixable error.
+                                    raise MultiPartParserError("Could not decode base64 data.")
 
                             for i, handler in enumerate(handlers):
                                 chunk_length = len(chunk)
-- 
2.43.0


From 9e4a70d1e32703e0917b2ab1e77457816a6b5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 13/45] fix: deliver empty uploaded files

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index bc7cce8..18d52f1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -323,7 +323,7 @@ class MultiPartParser:
         """
         for i, handler in enumerate(self._upload_handlers):
             file_obj = handler.file_complete(counters[i])
-            if file_obj:
+            if file_obj is not None:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
                 break
-- 
2.43.0


From ead6ecb8a617486d1f4dcf799782ee91e2101586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 14/45] fix: force_text() encodes unicode text with the given
 encoding, as needed for extended file names

---
 request_parser/utils/encoding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..6af0522 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -11,10 +11,10 @@ from future.backports.urllib.parse import quote, unquote
 class DjangoUnicodeDecodeError(UnicodeDecodeError):
     def __init__(self, obj, *args):
         self.obj = obj
-        super().__init__(*args)
+        super(DjangoUnicodeDecodeError, self).__init__(*args)
 
     def __str__(self):
-        return '%s. You passed in %r (%s)' % (super().__str__(), self.obj, type(self.obj))
+        return '%s. You passed in %r (%s)' % (super(DjangoUnicodeDecodeError, self).__str__(), self.obj, type(self.obj))
 
 def force_text(s, encoding='utf-8', strings_only=False, errors='strict'):
     return force_str(s, encoding, strings_only, errors)
@@ -47,8 +47,8 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
     if strings_only and is_protected_type(s):
         return s
     try:
-        if isinstance(s, bytes):
-            s = str(s, encoding, errors)
+        if isinstance(s, unicode):
+            s = s.encode(encoding, errors)
         else:
             s = str(s)
     except UnicodeDecodeError as e:
-- 
2.43.0


From 0371d184afd1d1cc9946f88f7cd776571d994640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 15/45] fix: iri_to_uri() accepts non-ASCII unicode text

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 6af0522..6f167e2 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -85,7 +85,7 @@ def iri_to_uri(iri):
         return iri
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
-    else:
+    elif not isinstance(iri, basestring):
         iri = str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
-- 
2.43.0


From a28849195eadcdf99ff3fc81914df3627bc17157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 16/45] fix: unescape_entities() leaves references to huge code
 points alone and accepts unicode text

---
 request_parser/utils/text.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..6bfbd81 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -5,6 +5,7 @@ _entity_re = re.compile(r"&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));")
 
 def _replace_entity(match):
     text = match.group(1)
+    to_char = unichr if isinstance(text, unicode) else chr
     if text[0] == '#':
         text = text[1:]
         try:
@@ -12,14 +13,16 @@ def _replace_entity(match):
                 c = int(text[1:], 16)
             else:
                 c = int(text)
-            return chr(c)
-        except ValueError:
+            return to_char(c)
+        except (ValueError, OverflowError, TypeError):
             return match.group(0)
     else:
         try:
-            return chr(htmlentitydefs.name2codepoint[text])
+            return to_char(htmlentitydefs.name2codepoint[text])
         except (ValueError, KeyError):
             return match.group(0)
 
 def unescape_entities(text):
-    return _entity_re.sub(_replace_entity, str(text))
\ No newline at end of file
+    if not isinstance(text, basestring):
+        text = str(text)
+    return _entity_re.sub(_replace_entity, text)
\ No newline at end of file
-- 
2.43.0


From c5a05da76b1fc5a96705978d2d78b78e9a2e4d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 17/45] fix: parse_http_date() raises ValueError for an
 impossible date (six.reraise was called with an instance and a value)

---
 request_parser/utils/http.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..6fe2902 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -15,9 +15,6 @@ from future.backports.urllib.parse import (
 from request_parser.exceptions.exceptions import TooManyFieldsSent
 from request_parser.utils.datastructures import MultiValueDict
 
-#Python 2 replacement for raise_from
-from six import reraise as raise_
-
 # based on RFC 7232, Appendix C
 ETAG_MATCH = re.compile(r'''
     \A(      # start of string and capture group
@@ -167,9 +164,9 @@ def parse_http_date(date):
         sec = int(m.group('sec'))
         result = datetime.datetime(year, month, day, hour, min, sec)
         return calendar.timegm(result.utctimetuple())
-    except Exception as exc:
+    except Exception:
         #raise ValueError("%r is not a valid date" % date) from exc
-        raise_(ValueError("%r is not a valid date" % date), exc)
+        raise ValueError("%r is not a valid date" % date)
 
 
 def parse_http_date_safe(date):
-- 
2.43.0


From 86ba1831eade90244b5084825ee4ce93138fc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 18/45] fix: import_string() raises ImportError for what it
 cannot import

---
 request_parser/utils/module_loading.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..ad936d0 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -4,8 +4,6 @@ from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
 
-from six import reraise as raise_
-
 def import_string(dotted_path):
     """
     Import a dotted module path and return the attribute/class designated by the
@@ -13,19 +11,23 @@ def import_string(dotted_path):
     """
     try:
         module_path, class_name = dotted_path.rsplit('.', 1)
-    except ValueError as err:
+    except ValueError:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise ImportError("%s doesn't look like a module path" % dotted_path)
 
-    module = import_module(module_path)
+    try:
+        module = import_module(module_path)
+    except (KeyError, TypeError, ValueError):
+        # An empty, relative, malformed or non-ASCII module path.
+        raise ImportError("%r doesn't look like a module path" % dotted_path)
 
     try:
         return getattr(module, class_name)
-    except AttributeError as err:
+    except (AttributeError, UnicodeError):
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise ImportError('Module "%s" does not define a %r attribute/class' % (module_path, class_name))
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From a8f5a6351d0cced3a1462d821703d3018bb7d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 19/45] fix: urlsafe_base64_decode() raises ValueError for
 incorrect padding (a TypeError in Python 2)

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 6fe2902..d6b88fe 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -222,7 +222,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (LookupError, TypeError, BinasciiError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From 8fdc724981fa13359b125b632dba533807f6f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 20/45] fix: QueryDict decodes byte keys and values and encodes
 text ones, instead of the other way round

---
 request_parser/http/request.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index c05fd28..0a78f35 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -760,7 +760,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(text_to_bytes(k, self.encoding), text_to_bytes(v, self.encoding))
                 for v in list_
             )
         return '&'.join(output)
@@ -778,10 +778,18 @@ def bytes_to_text(s, encoding):
     """
     if isinstance(s, bytes):
         #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return s.decode(encoding, 'replace')
     else:
         return s
 
+def text_to_bytes(value, encoding):
+    """
+    Return the bytes of value in the given encoding, with bytes left as they are.
+    """
+    if isinstance(value, bytes):
+        return value
+    return unicode(value).encode(encoding)
+
 def is_text_charset(charset):
     """
     Return True if charset names a codec between bytes and text which supports
-- 
2.43.0


From 9b971333d1498d5b3957052d558319128b7d76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 21/45] fix: a request whose header could not be parsed does
 not count as parsed

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 0a78f35..40872d7 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -417,7 +417,6 @@ class HttpRequest(object,):
         request_header_end = -1
         while request_header_end == -1:
             chunk = self.read(self.settings.MAX_HEADER_SIZE)
-            self._request_header_parsed = True
             if not chunk:
                 break
             
@@ -494,6 +493,7 @@ class HttpRequest(object,):
         self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
+        self._request_header_parsed = True
 
     def _mark_post_parse_error(self):
         self._post = QueryDict(self.settings)
-- 
2.43.0


From 63501dc49445a92fd450e99798a86bd41ce38e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 22/45] fix: body() accepts a DATA_UPLOAD_MAX_MEMORY_SIZE of
 None, which means no limit

---
 request_parser/http/request.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 40872d7..147771f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -374,13 +374,15 @@ class HttpRequest(object,):
 
             #default chunk_size is 64KB
             chunk_size = 64 * (2 ** 10)
+            #None means no limit
+            max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
             read_size = 0
             chunk = ''
             _body = ''
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
+                while (max_size is None or read_size <= max_size) and\
                         chunk:
                     _body += chunk
                     chunk = self.read(chunk_size)
@@ -388,7 +390,7 @@ class HttpRequest(object,):
             except IOError as e:
                 raise UnreadablePostError(*e.args)
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if max_size is not None and read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0


From ce058f0066a36001a5bd0ee108b2bb3ed16f1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 23/45] fix: setting a new stream drops the body cached from
 the previous one, and parsing a body never leaves the previous POST and FILES

---
 request_parser/http/request.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 147771f..022fc1a 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -225,8 +225,9 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
-        possible.
+        This reset doesn't reset POST and FILES, which keep the values of the previous stream
+        until the new body is parsed. The cached _body is dropped, body() and parse_request_body()
+        read the new stream.
         """
         self._stream = val
         #create a LazyStream out of the _stream
@@ -234,6 +235,10 @@ class HttpRequest(object,):
             self._stream = BytesIO()
         self._stream = LazyStream(self._stream)
 
+        #the body of the previous stream must not be taken for the new one's
+        if hasattr(self, '_body'):
+            del self._body
+
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
@@ -279,7 +284,7 @@ class HttpRequest(object,):
     def _reset_header_meta_data(self):
         """
         Remove the listed below META data for a parser instance.
-        Note that the POST, FILES and _body are exempt because they're context
+        Note that the POST and FILES are exempt because they're context
         dependant.
 
         Called by stream.setter to reset parser status.
@@ -521,6 +526,10 @@ class HttpRequest(object,):
             self._mark_post_parse_error()
             raise RequestHeaderParseException("Request header not parsed.Parse request header first.")
 
+        #nothing of a body parsed before belongs to this one
+        self.POST = QueryDict(self.settings, mutable=True)
+        self.FILES = MultiValueDict()
+
         #body_stream = self.request_stream
         body_stream = self._stream
         data = self.read(1)
@@ -528,6 +537,9 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self._request_body_parsed = True
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
-- 
2.43.0


From bed91456f0e473664a38d753998546ad8f34c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 24/45] fix: parsing a form does not decode its raw body, which
 fails for undecodable bytes and reads the rest of a reset upload

---
 request_parser/http/request.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 022fc1a..7651fea 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -564,10 +564,8 @@ class HttpRequest(object,):
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
         #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
-            or self.content_type == 'application/json':
-            self._body = self.body().decode(self.encoding)
-        else:
+        #the raw body of a form is not available after parsing, and need not be text
+        if self.content_type != 'multipart/form-data' and self.content_type != 'application/x-www-form-urlencoded':
             self._body = self.body().decode(self.encoding)
         
         self._request_body_parsed = True
-- 
2.43.0


From d3a5e0ce991fa17e9ce22920cb7b1dd3bf185e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 25/45] fix: upload_handlers can be read before parsing, and
 handlers set on a request are used

---
 request_parser/http/request.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 7651fea..b9bb1e2 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -80,6 +80,10 @@ class HttpRequest(object,):
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
 
+        #upload handlers, and whether they were set by the user
+        self._upload_handlers = []
+        self._custom_upload_handlers = False
+
         self._re_init()
 
     def _re_init(self):
@@ -346,6 +350,7 @@ class HttpRequest(object,):
         if hasattr(self, '_files'):
             raise AttributeError("You cannot set the upload handlers after the upload has been processed.")
         self._upload_handlers = upload_handlers
+        self._custom_upload_handlers = True
 
     def parse(self):
         """
@@ -516,7 +521,8 @@ class HttpRequest(object,):
             return
         
         #initialize the upload_hanldlers
-        self._initialize_handlers()
+        if not self._custom_upload_handlers:
+            self._initialize_handlers()
 
         #if header not parsed already
         #if parse_request_body is called, then it means
-- 
2.43.0


From e5de2e748e15fc34c4b7438552188d2e670bb6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 26/45] fix: ImmutableMultiValueDict refuses pop(), popitem()
 and clear(), and behaves like its base class when made mutable

---
 request_parser/utils/datastructures.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 486584d..f271917 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -288,9 +288,9 @@ class ImmutableMultiValueDict(MultiValueDict):
             raise AttributeError("This ImmutableMultiValueDict instance is immutable.")
 
     def __setitem__(self, key, value):
-        #set the value as a list i.e [value]
+        #the base class sets the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
@@ -322,14 +322,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
@@ -339,7 +339,19 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
+
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
 
 class LazyStream:
     """
-- 
2.43.0


From 1582a0827578692f6d0f73866ae7b27cdc066317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 27/45] fix: MultiValueDict.__getstate__() returns the state
 instead of failing to build a set of dictionaries

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index f271917..be8c026 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -76,7 +76,7 @@ class MultiValueDict(dict):
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
-- 
2.43.0


From decdcae5ecc6ded4595dec96d94b82305e8a060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 28/45] fix: File.size is a value again (len() and
 multiple_chunks() use it as one), and ContentFile can be created

---
 request_parser/files/base.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..ca31b05 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -4,7 +4,7 @@ from io import BytesIO, StringIO, UnsupportedOperation
 from request_parser.files.utils import FileProxyMixin
 #from django.utils.functional import cached_property
 
-class File(FileProxyMixin):
+class File(FileProxyMixin, object):
     DEFAULT_CHUNK_SIZE = 64 * 2 ** 10
 
     def __init__(self, file, name=None):
@@ -24,11 +24,14 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return int(self.size)
 
-    #@cached_property
-    def size(self):
+    def _get_size(self):
+        if getattr(self, '_size', None) is not None:
+            return self._size
         if hasattr(self.file, 'size'):
             return self.file.size
         if hasattr(self.file, 'name'):
@@ -44,6 +47,11 @@ class File(FileProxyMixin):
             return size
         raise AttributeError("Unable to determine the file's size.")
 
+    def _set_size(self, size):
+        self._size = size
+
+    size = property(_get_size, _set_size)
+
     def chunks(self, chunk_size=None):
         """
         Read the file and yield chunks of ``chunk_size`` bytes (defaults to
@@ -122,8 +130,8 @@ class ContentFile(File):
     A File-like object that takes just raw content, rather than an actual file.
     """
     def __init__(self, content, name=None):
-        stream_class = StringIO if isinstance(content, str) else BytesIO
-        super().__init__(stream_class(content), name=name)
+        stream_class = StringIO if isinstance(content, unicode) else BytesIO
+        super(ContentFile, self).__init__(stream_class(content), name=name)
         self.size = len(content)
 
     def __str__(self):
@@ -132,6 +140,8 @@ class ContentFile(File):
     def __bool__(self):
         return True
 
+    __nonzero__ = __bool__
+
     def open(self, mode=None):
         self.seek(0)
         return self
@@ -140,7 +150,7 @@ class ContentFile(File):
         pass
 
     def write(self, data):
-        self.__dict__.pop('size', None)  # Clear the computed size.
+        self.size = None  # Clear the computed size.
         return self.file.write(data)
 
 
-- 
2.43.0


From b1dd0a0e9fdd34044cc12bc35b5bff7a3b20d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 29/45] fix: an uploaded file's name is never '.' or '..'

---
 request_parser/files/uploadedfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..30ab35d 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -40,6 +40,10 @@ class UploadedFile(File, object):
             # Just use the basename of the file -- anything else is dangerous.
             name = os.path.basename(name)
 
+            # These name directories.
+            if name == '.' or name == '..':
+                name = ''
+
             # File names longer than 255 characters can cause problems on older OSes.
             if len(name) > 255:
                 name, ext = os.path.splitext(name)
-- 
2.43.0


From 3dc75a0ad6e77aaf406fd0233a1d76273929eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 30/45] fix: UploadedFile.open() never opens a file by the name
 the client sent

---
 request_parser/files/uploadedfile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 30ab35d..9bf18f1 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -54,6 +54,13 @@ class UploadedFile(File, object):
 
     name = property(_get_name, _set_name)
 
+    def open(self, mode=None):
+        # The name was chosen by the client, it must not be opened.
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        self.seek(0)
+        return self
+
 class TemporaryUploadedFile(UploadedFile, object):
     """
     A file uploaded to a temporary location (i.e. stream-to-disk).
-- 
2.43.0


From fe4267fa07cc5f103dce2d374e4765582f5a8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 31/45] fix: only an ordinary extension of the client's file
 name becomes part of a temporary file's name

---
 request_parser/files/uploadedfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 9bf18f1..5bc4484 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -3,12 +3,15 @@ Classes representing uploaded files.
 """
 
 import os
+import re
 from io import BytesIO
 
 from request_parser.conf.settings import Settings
 from request_parser.files import temp as tempfile
 from request_parser.files.base import File
 
+extension_re = re.compile(r'\.[A-Za-z0-9]{1,32}\Z')
+
 __all__ = ('UploadedFile', 'TemporaryUploadedFile', 'InMemoryUploadedFile', 'SimpleUploadedFile')
 
 class UploadedFile(File, object):
@@ -67,6 +70,9 @@ class TemporaryUploadedFile(UploadedFile, object):
     """
     def __init__(self, name, content_type, size, charset, settings = None, content_type_extra=None, transfer_encoding=None):
         _, ext = os.path.splitext(name)
+        # Only an ordinary extension becomes part of the temporary file's name.
+        if not extension_re.match(ext):
+            ext = ''
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
-- 
2.43.0


From 17496ec1267561e0f6b664d1b350bb3bcf075e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 32/45] fix: closing a temporary upload whose file is gone is
 not an error (unlinking raises OSError)

---
 request_parser/files/uploadedfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 5bc4484..edc6086 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -86,7 +86,7 @@ class TemporaryUploadedFile(UploadedFile, object):
     def close(self):
         try:
             return self.file.close()
-        except IOError:
+        except (IOError, OSError):
             # The file was moved or deleted before the tempfile could unlink
             # it. Still sets self.file.close_called and calls
             # self.file.file.close() before the exception.     
-- 
2.43.0


From e30295777ca1d4b4cb7adad9f1398799a05a1a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 33/45] fix: ConvenientFileUploadHandler shows its open file,
 so that an aborted upload closes it

---
 request_parser/files/uploadhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 0f861ab..61a5805 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -262,6 +262,11 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
     def upload_complete(self):
         self._handler.upload_complete()
 
+    @property
+    def file(self):
+        #the parser closes the file of every handler when an upload is skipped or stopped
+        return self._handler.file
+
 def load_handler(path, *args, **kwargs):
     """
     Given a path to a handler, return an instance of that handler.
-- 
2.43.0


From cbd24290c31b5a9b3cf6b02c072f2002bb17cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 34/45] fix: is_safe_url() takes a unicode allowed host as one
 host, not as a set of substrings

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index d6b88fe..7259869 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -286,7 +286,7 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         return False
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, basestring):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
-- 
2.43.0


From 43d47bba7ffd13cd10d43cd3b718c710a6568518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 35/45] fix: is_safe_url() accepts byte string URLs

---
 request_parser/utils/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7259869..7b2b4ea 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -360,7 +360,10 @@ def _is_safe_url(url, allowed_hosts, require_https=False):
     # Forbid URLs that start with control characters. Some browsers (like
     # Chrome) ignore quite a few control characters at the start of a
     # URL and might consider the URL as scheme relative.
-    if unicodedata.category(url[0])[0] == 'C':
+    first_char = url[0]
+    if isinstance(first_char, bytes):
+        first_char = first_char.decode('iso-8859-1')
+    if unicodedata.category(first_char)[0] == 'C':
         return False
     scheme = url_info.scheme
     # Consider URLs without a scheme (e.g. //example.com/p) to be http.
-- 
2.43.0


From d66d57632f3138a72d3f8e8acbd80d6bb174c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 36/45] fix: an upload directory that cannot be created is
 refused with InvalidDirectory (mkdir and remove raise OSError)

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 38bfa9bfa5bb9a5193a23ef426a85a0496a69d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 37/45] fix: an empty settings dictionary gives the default
 settings

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index b87cf29..5e51205 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -40,7 +40,7 @@ class Settings:
     ]
 
     def __init__(self, settings_dict=None, check_presence=False):
-        if not settings_dict or type(settings_dict) != dict:
+        if settings_dict is None or type(settings_dict) != dict:
             return
 
         default_settings = Settings.default(check_presence=check_presence)
-- 
2.43.0


From 77a814478590961a8731799111f134d898c94944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 38/45] fix: module_has_submodule() looks for the module inside
 the package (imp.find_module does not take dotted names)

---
 request_parser/utils/module_loading.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index ad936d0..777d90a 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -70,15 +70,13 @@ def import_string(dotted_path):
 def module_has_submodule(package, module_name):
     """See if 'module' is in 'package'."""
     try:
-        package_name = package.__name__
         package_path = package.__path__
     except AttributeError:
         # package isn't a package.
         return False
 
-    full_module_name = package_name + '.' + module_name
     try:
-        return importlib_find(full_module_name, package_path) is not None
+        return importlib_find(module_name, package_path) is not None
     except (ImportError, AttributeError):
         # When module_name is an invalid dotted path, Python raises ImportError
         # (or ModuleNotFoundError in Python 3.6+). AttributeError may be raised
-- 
2.43.0


From a007067aea88a75613374d19cdcd11016cb1556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 39/45] fix: the unread rest of an ignored multipart part is
 discarded, not parsed as further parts

---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 18d52f1..5e667a4 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -564,6 +564,9 @@ class Parser:
             # Iterate over each part
             #to return item_type, meta_data, field_stream
             yield parse_boundary_stream(sub_stream, 1024)
+            # What was not read of a part is still data of that part, it must
+            # not be taken for another part.
+            exhaust(sub_stream)
 
 def parse_header(line):
     """
-- 
2.43.0


From afa9dc58066fcbd06491d98304b57b164c807f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 40/45] fix: a part without usable headers is passed on
 verbatim, without repeating its first bytes

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 5e667a4..b5b4ada 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -540,7 +540,8 @@ def parse_boundary_stream(stream, max_header_size):
     #if the stream if raw, then put it back
     #into the stream for it to be read byt the main parser
     if TYPE == RAW:
-        stream.unget(chunk)
+        # What follows the header is back on the stream already.
+        stream.unget(chunk[:header_end + 4])
 
     return (TYPE, outdict, stream)
 
-- 
2.43.0


From cd5043efbedab4194bc95bd0238a34d483a7c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 41/45] fix: an HTTP date followed by a line break is not a
 valid date

---
 request_parser/utils/http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7b2b4ea..2e3d266 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -32,9 +32,9 @@ __M = r'(?P<mon>\w{3})'
 __Y = r'(?P<year>\d{4})'
 __Y2 = r'(?P<year>\d{2})'
 __T = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
-RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT$' % (__D, __M, __Y, __T))
-RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT$' % (__D, __M, __Y2, __T))
-ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s$' % (__M, __D2, __T, __Y))
+RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT\Z' % (__D, __M, __Y, __T))
+RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT\Z' % (__D, __M, __Y2, __T))
+ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s\Z' % (__M, __D2, __T, __Y))
 
 RFC3986_GENDELIMS = ":/?#[]@"
 RFC3986_SUBDELIMS = "!$&'()*+,;="
-- 
2.43.0


From f2175c7467c81789703db4769e5455cd0a2a79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 42/45] fix: complete an uploaded file whose field name is
 empty

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index b5b4ada..4be637b 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -148,7 +148,7 @@ class MultiPartParser:
 
         try:
             for item_type, meta_data, field_stream in Parser(stream, self._boundary):
-                if old_field_name:
+                if old_field_name is not None:
                     # We run this at the beginning of the next loop
                     # since we cannot be sure a file is complete until
                     # we hit the next boundary/part of the multipart content.
-- 
2.43.0


From 991168f6663c12114dc2c52f753146ba5ad164b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 43/45] fix: refuse a host that ends with a line break

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b9bb1e2..2301d01 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -18,7 +18,7 @@ from constants import MetaDict
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From db3eeefa11498d6d79e5bd72722feeab56fd2fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 44/45] fix: refuse an empty request line instead of taking its
 line break for the method

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 2301d01..0009084 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -850,7 +850,7 @@ def parse_request_headers(request_header_stream):
     request_headers = {}
     start = 0
 
-    end = request_header_stream.find(b'\r\n', 1)
+    end = request_header_stream.find(b'\r\n')
     if end != -1:
         request_line = request_header_stream[start:end]
     else:
-- 
2.43.0


From f562135b45b4053b7abb43a9bb1cfff620cc593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:55 +0000
Subject: [PATCH 45/45] fix: File.open() reopens a file whose file object had
 no mode (an AttributeError)

---
 request_parser/files/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index ca31b05..2be7b53 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -116,7 +116,7 @@ class File(FileProxyMixin, object):
         if not self.closed:
             self.seek(0)
         elif self.name and os.path.exists(self.name):
-            self.file = open(self.name, mode or self.mode)
+            self.file = open(self.name, mode or getattr(self, 'mode', 'rb'))
         else:
             raise ValueError("The file cannot be reopened.")
         return self
-- 
2.43.0

