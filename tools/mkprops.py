"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
R = "request_parser/"
REQ, MP, DS, ENC, HT = R+"http/request.py", R+"http/multipartparser.py", R+"utils/datastructures.py", R+"utils/encoding.py", R+"utils/http.py"
UH, UF, FB, FU, FT, ST, ML, TX, EX = (R+"files/uploadhandler.py", R+"files/uploadedfile.py", R+"files/base.py", R+"files/utils.py",
    R+"files/temp.py", R+"conf/settings.py", R+"utils/module_loading.py", R+"utils/text.py", R+"exceptions/exceptions.py")
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": observe, "hook_needed": None}})

P("C01", "The raw body is complete or refused, never larger than the memory limit",
  "Reading the raw body of a request whose header is parsed and whose body is not returns every body byte in order when the body is no longer than DATA_UPLOAD_MAX_MEMORY_SIZE, and raises RequestDataTooBig, returning and retaining nothing, when it is longer. Before refusing, it never takes more than one 64 KB chunk beyond the limit from the stream. A limit of None means no limit.",
  ["inputs", "configurations"], "for every body length, every chunking of the stream and every limit (an int or None)",
  "The tests read a few short bodies under the 5 MB default; the boundary (limit-1, limit, limit+1), other limits and other chunkings are never reached.",
  [REQ], [("HttpRequest.body chunked read with a running total", REQ), ("HttpRequest.read", REQ)], ["HttpRequest.body()", "RequestDataTooBig"])
P("C02", "Multipart form fields never exceed the data memory limit",
  "While a multipart body is parsed, the bytes of all non-file field values read so far plus, for each field, its name length and 2, never exceed DATA_UPLOAD_MAX_MEMORY_SIZE among the fields that are stored; the first field that would exceed it raises RequestDataTooBig, and a field that stays within it is not refused on that ground. No single field read asks the stream for more than the remaining allowance. A limit of None means no limit, and uploaded file data is not counted.",
  ["inputs", "configurations"], "for every sequence of parts, every field size and name, every transfer encoding, every limit",
  "Only small forms under the default limit are tested; the cumulative bound over many fields and base64 fields is not.",
  [MP], [("running total num_bytes_read and read_size in MultiPartParser.parse", MP)], ["HttpRequest.parse_request_body()", "MultiPartParser.parse()"])
P("C03", "More form fields than the configured maximum are always refused",
  "With a positive DATA_UPLOAD_MAX_NUMBER_FIELDS of n, a query string or urlencoded body that splits into more than n pairs, or a multipart body with more than n non-file fields, raises TooManyFieldsSent before the excess field is stored, and one with at most n is never refused for its field count. None disables the limit. The configured value is the one applied to GET parameters, urlencoded bodies and multipart bodies alike.",
  ["inputs", "configurations"], "for every number of fields and every limit, through all three entry paths",
  "The tests never approach a limit; off-by-one or a path that forgets to pass the limit on is invisible to them.",
  [HT, REQ, MP], [("fields_limit in limited_parse_qsl", HT), ("QueryDict.__init__ passes the limit", REQ), ("num_post_keys in MultiPartParser.parse", MP)],
  ["QueryDict(...)", "limited_parse_qsl()", "MultiPartParser.parse()"])
P("C04", "Uploads held in memory stay under the limit and spill to disk without loss",
  "The default upload handler keeps a file in memory only while its received size is at most FILE_UPLOAD_MAX_MEMORY_SIZE; the chunk that would exceed it moves the file to a temporary file first. The delivered file then contains every received chunk exactly once and in order, whether it stayed in memory or was moved, and is moved at most once. The plain in-memory handler takes a file only if the announced content length is at most the limit, and otherwise passes every chunk on unchanged.",
  ["inputs", "configurations", "histories"], "for every sequence of chunk sizes and every limit, for each file of a request",
  "The handler tests send one or two fixed chunk sequences; the exact boundary and several files in one request are not exercised.",
  [UH], [("ConvenientFileUploadHandler.receive_data_chunk", UH), ("MemoryFileUploadHandler.handle_raw_input activation", UH)],
  ["ConvenientFileUploadHandler", "MemoryFileUploadHandler", "HttpRequest.FILES"])
P("C05", "Parsing a finite stream terminates",
  "Parsing a header or a body from a stream that eventually reports end of file always terminates, with a result or an exception, however the bytes are malformed or truncated. In particular no read loop continues after the stream has nothing left, and every iterator the library hands out keeps raising StopIteration at the end. Pushing the same number of bytes back again and again is detected and refused with SuspiciousMultipartForm.",
  ["inputs"], "for every finite byte stream, truncated at any point",
  "A test can only show that some inputs terminate; truncated base64 parts, missing boundaries and empty reads are not tried.",
  [MP, DS, REQ, HT, FB], [("EOF exits of every loop", MP), ("ChunkIter.next / LazyStream.read StopIteration", DS), ("LazyStream._update_unget_history", DS), ("header read loop", REQ)],
  ["HttpRequest.parse()", "MultiPartParser.parse()", "LazyStream.read()"])
P("C06", "Reading and pushing back never loses, reorders or duplicates bytes",
  "On the push-back stream, a read of n bytes returns at most n bytes and fewer only when the source ends, and what was returned followed by what is still buffered and the rest of the source is always the original byte sequence. Pushed-back bytes come out first, before anything buffered earlier. The reported position is always the number of bytes handed out minus those pushed back.",
  ["inputs", "histories"], "for every interleaving of read(n), read(), next and unget over every chunking of the source",
  "There is no direct test of the stream; the parser tests use a handful of well-formed bodies.",
  [DS], [("LazyStream.read / next / unget / _leftover", DS)], ["LazyStream.read()", "LazyStream.unget()", "LazyStream.tell()"],
  [("_leftover", "pushed back bytes, returned first", DS), ("position", "net bytes handed out", DS)])
P("C07", "Splitting at boundaries conserves the data and finds straddling boundaries",
  "Splitting a multipart stream hands out, for each part, exactly the bytes before the boundary without the line break (CRLF, or a lone LF or CR) that belongs to it, and continues exactly behind the boundary; without a boundary in view it hands out data and keeps the rest buffered, so nothing is lost or repeated. It always holds back at least the boundary length plus six bytes while more input may follow, so a boundary cut by a chunk limit is still recognised. Part headers end at the first blank line; the payload starts right behind it, and a part without usable headers is passed on verbatim.",
  ["inputs"], "for every chunking of every stream and every boundary string",
  "The straddling case depends on where chunk limits fall; the tests parse small bodies that fit one chunk.",
  [MP], [("BoundaryIter.next / _find_boundary / _rollback", MP), ("parse_boundary_stream", MP), ("Parser separator", MP)],
  ["BoundaryIter", "parse_boundary_stream()", "MultiPartParser.parse()"])
P("C08", "Header parsing fails only with its documented exceptions",
  "Parsing the request header of any byte stream either succeeds or raises InvalidHttpRequest, NoHostFoundException, TooManyFieldsSent or, when the stream itself fails, UnreadablePostError; no other exception type escapes. After a failed header parse the request is not considered parsed.",
  ["inputs", "fault_sequences"], "for every byte stream given as a request header",
  "The tests try a few malformed headers; non-ASCII header bytes, unbalanced IPv6 brackets, unknown charsets and stream errors are among the endless rest.",
  [REQ, HT, MP, ENC], [("parse_request_header, parse_request_headers, parse_request_line", REQ), ("_urlparse", HT), ("parse_header", MP)],
  ["HttpRequest.parse_request_header()"])
P("C09", "Body parsing fails only with its documented exceptions",
  "Parsing the body of any byte stream after a successful header parse either succeeds or raises MultiPartParserError, TooManyFieldsSent, RequestDataTooBig, SuspiciousMultipartForm, RequestHeaderParseException, RawPostDataException, UnicodeDecodeError (undecodable non-form text) or, when the stream fails, UnreadablePostError. Malformed part headers, malformed base64, unknown charset names in a file name and malformed character entities never surface as any other exception.",
  ["inputs", "fault_sequences"], "for every body byte stream and every content type",
  "Only well-formed bodies are tested.",
  [REQ, MP, DS, ENC, TX], [("MultiPartParser.parse and its except clauses", MP), ("parse_header", MP), ("unescape_entities", TX), ("force_text", ENC)],
  ["HttpRequest.parse_request_body()"])
P("C10", "A failing stream is reported as UnreadablePostError",
  "When the underlying stream raises an I/O error, reading it through the request (raw read, readline, iteration, raw body, header or body parsing) raises UnreadablePostError carrying the original error's arguments, never the raw error, a TypeError or a silently truncated result.",
  ["fault_sequences"], "for an I/O error at any read, through every reading entry point",
  "No test uses a failing stream.",
  [REQ], [("try/except IOError in HttpRequest.read, readline, body", REQ)], ["HttpRequest.read()", "HttpRequest.body()", "HttpRequest.parse()"])
P("C11", "Giving a request a new stream starts a fresh request",
  "After a new stream is set, nothing parsed or cached from the previous stream is observable: header data, GET, raw body and parse status return to their initial values at once, POST and FILES at the latest when the new body is parsed, so parsing gives the same result as a new request object built on that stream.",
  ["histories"], "for every previous stream, however far its parse got (including failures), followed by any new stream",
  "The tests reuse a request object in one way; stale data shows only in particular sequences.",
  [REQ], [("HttpRequest.stream setter, _reset_header_meta_data, _re_init", REQ)], ["HttpRequest.stream = ...", "HttpRequest.body()", "HttpRequest.POST"])
P("C12", "Giving a request a new body stream replaces the body and only the body",
  "After a new body stream is set, POST, FILES and the cached raw body are empty again and the body can be parsed again, while everything obtained from the header (method, scheme, host, port, path, protocol, content type, GET, headers, encoding and the header-parsed status) is unchanged.",
  ["histories"], "for every earlier parse state and every new body stream",
  "One sequence is tested; the retention of each header-derived value is not.",
  [REQ], [("HttpRequest.body_stream setter", REQ)], ["HttpRequest.body_stream = ..."])
P("C13", "Header and body are parsed in order and at most once",
  "The body is never parsed before the header of the same stream has been parsed successfully: without that, RequestHeaderParseException is raised and no body byte is consumed. Repeating a completed header or body parse changes nothing and reads nothing, asking for the raw body again gives the same bytes without reading, and asking for the raw body after a form body has been parsed raises RawPostDataException instead of returning partial data.",
  ["histories"], "for every sequence of parse and body calls",
  "Sequences are unbounded; the tests exercise a few.",
  [REQ], [("_request_header_parsed / _request_body_parsed flags", REQ)], ["HttpRequest.parse_request_header()", "HttpRequest.parse_request_body()", "HttpRequest.body()"],
  [("_request_header_parsed", "header parsed", REQ), ("_request_body_parsed", "body parsed", REQ)])
P("C14", "Parsing a request never changes the settings it was given",
  "No operation on a request, parser, upload handler or uploaded file changes the settings object or the settings class; two requests sharing a settings object cannot influence each other through it, whatever charset or content they carry.",
  ["inputs", "histories"], "for every request content and every order of requests sharing settings",
  "The tests use one settings object per request.",
  [REQ, MP, UH, UF, ST], [("settings are read, not written, outside Settings", REQ)], ["Settings attributes after HttpRequest.parse()"])
P("C15", "Data handed out as immutable cannot be changed",
  "The parsed request headers, and every query dictionary or list built as immutable (including POST after parsing a form and the GET of a request that has a query string), refuse every mutating operation with AttributeError and are left unchanged by the attempt; this holds for every mutator of the dict and list interfaces. A mutable instance accepts the same operations with the effect of its mutable base class.",
  ["inputs", "histories"], "for every mutating method of the container interfaces, with every argument",
  "No test enumerates the mutators; one forgotten method breaks the guarantee silently.",
  [DS, REQ], [("_assert_mutable in ImmutableMultiValueDict", DS), ("ImmutableList.complain", DS), ("QueryDict._assert_mutable", REQ)],
  ["ImmutableMultiValueDict", "ImmutableList", "QueryDict"])
P("C16", "Copies and returned lists do not share state with the container",
  "A list obtained from getlist, or given to setlist, is independent of the container: changing one never changes the other. copy and deepcopy of a multi-value dictionary or query dictionary give a separate container with the same keys and value lists (deepcopy also with separate values), and the copy of a query dictionary is mutable; pickling state contains every key with its full list.",
  ["inputs", "histories"], "for every content and every later mutation of either side",
  "Aliasing shows only when one side is mutated later; the tests do not do that.",
  [DS, REQ], [("_getlist(force_list)", DS), ("setlist", DS), ("__copy__/__deepcopy__/__getstate__", DS), ("QueryDict.__copy__/__deepcopy__", REQ)],
  ["MultiValueDict.getlist/setlist/copy", "QueryDict.copy"])
P("C17", "Multi-value access returns the last value and keeps all values in order",
  "For a multi-value dictionary, indexing and get return the last value of the key's list (a missing key raises MultiValueDictKeyError or gives the default; an empty list gives [] or the default), getlist returns all of them in order, assignment replaces the list by a single value, and appendlist and update extend it at the end without touching other keys. setdefault and setlistdefault change a key only when it is absent.",
  ["inputs", "histories"], "for every key, every stored list and every sequence of operations",
  "Tests sample a few keys.",
  [DS], [("MultiValueDict accessors", DS)], ["MultiValueDict"])
P("C18", "An uploaded file's name is a bare file name of at most 255 characters",
  "The name of any uploaded file object is the last path component of what the client sent, so it contains no '/' (and, for multipart uploads, no backslash), is never '.' or '..', and is at most 255 characters long with its extension kept when shortened. This holds however the name is set, also after construction.",
  ["inputs"], "for every client-supplied file name",
  "Names are attacker controlled; the tests use a few benign ones.",
  [UF, MP], [("UploadedFile._set_name", UF), ("MultiPartParser.IE_sanitize", MP)], ["UploadedFile.name"])
P("C19", "Client-supplied names never choose a path on disk",
  "Files are created, opened or deleted only inside the configured upload directory and under names generated by the library; no byte of the request (file name, field name, headers) reaches a file system call as a path, or as part of one that could leave that directory.",
  ["inputs"], "for every request content",
  "A test cannot exclude every flow from client data to a file system call.",
  [UF, FB, FT, UH, ST], [("TemporaryUploadedFile.__init__ NamedTemporaryFile(dir=...)", UF), ("File.open", FB), ("Settings._check_upload_dir", ST)],
  ["NamedTemporaryFile", "open", "os.*"])
P("C20", "Delivered files are rewound, sized and described as received",
  "A file delivered in FILES is positioned at its start, its size is the number of (decoded) bytes received for it, and its field name key, file name, content type, charset, content-type parameters and transfer encoding are those of its part. An uploaded file that is empty is delivered too.",
  ["inputs"], "for every upload, in memory or on disk, of any size including zero",
  "Only a few non-empty uploads are tested.",
  [UH, MP, UF], [("file_complete in the handlers", UH), ("handle_file_complete", MP), ("UploadedFile.__init__", UF)], ["HttpRequest.FILES"])
P("C21", "Upload handlers are driven by a fixed protocol",
  "For each file part, handlers get new_file once in order (stopping after one that claims the file), then every chunk with the handler's own cumulative offset, each handler receiving what the previous one returned until one returns None, then file_complete with the total it received; the first handler to return a file object supplies it. After the last part upload_complete is called on the handlers in order, up to the first that returns a true value, and every part is looked at. Skipping a file discards only that file's data and the parts behind it are still parsed, and stopping the upload ends parsing, consuming the rest of the input unless the connection is to be reset.",
  ["inputs", "histories"], "for every list of handlers, every sequence of parts and every signal a handler raises",
  "The protocol is a sequence property over arbitrary handlers; only the default handler is exercised.",
  [MP], [("handler loops in MultiPartParser.parse", MP), ("handle_file_complete", MP)], ["FileUploadHandler callbacks"])
P("C22", "Closing a request closes every uploaded file and aborted uploads release theirs",
  "Closing a request closes each file of every key in FILES. When an upload is skipped or stopped, the handlers' open files are closed, and closing a temporary upload whose file is already gone is not an error.",
  ["histories", "fault_sequences"], "for every set of uploaded files, every abort point",
  "Leaks and double closes are not observed by the tests.",
  [REQ, MP, UF], [("HttpRequest.close", REQ), ("MultiPartParser._close_files", MP), ("TemporaryUploadedFile.close", UF)], ["HttpRequest.close()", "file.closed"])
P("C23", "Only a syntactically valid host is ever reported",
  "The host reported for a request is either empty or a lower-cased host name or bracketed IPv6 literal consisting of the characters those allow, with no port, user info, path or white space in it; a port is reported only as a string of digits or as a default derived from the scheme.",
  ["inputs"], "for every Host header and every absolute request URI",
  "Hosts are attacker controlled; the tests use a few.",
  [REQ], [("host_validation_re / split_domain_port", REQ)], ["HttpRequest.get_host()", "HttpRequest.get_port()"])
P("C24", "Every header line is kept under its name, in order, or the request is refused",
  "Each header line of an accepted request appears in the parsed headers (except the lines named exactly 'Host' when the host of the request is taken from them): its name is the text before the first colon, its value the text behind it with surrounding white space removed, and repeated names keep all values in order of appearance. A line without a colon, a request line that is not three space-separated parts, a request without headers and input that ends before the blank line are refused with InvalidHttpRequest. The blank line and the header are removed from the stream and every byte behind it stays readable as the body.",
  ["inputs"], "for every header block and every chunking of the stream",
  "A handful of requests is tested.",
  [REQ], [("parse_request_headers", REQ), ("parse_request_line", REQ), ("parse_request_header", REQ)], ["HttpRequest.META", "HttpRequest.parse_request_header()"])
P("C25", "Generated paths and URIs are safe ASCII",
  "The encoded path, full path, query string and URI (apart from the scheme and host it reports) produced for a request, and the path stored by set_path with safe encoding, consist only of unreserved, reserved and percent-encoded ASCII characters: no white space, control, double-quote, angle-bracket or non-ASCII character from the input is passed through. In an encoded path '?' and '#' are always escaped, an appended slash is added only when asked for and missing, and the query string is appended behind exactly one '?' only when it is not empty.",
  ["inputs"], "for every path and query string",
  "The set of characters is infinite in combination; the tests use a few Unicode paths.",
  [REQ, ENC], [("escape_uri_path / iri_to_uri safe sets", ENC), ("_get_full_path, get_uri, set_path", REQ)], ["HttpRequest.get_full_path()", "HttpRequest.get_uri()", "iri_to_uri()", "escape_uri_path()"])
P("C26", "A URL accepted as safe stays on an allowed host",
  "is_safe_url returns True only for a non-empty URL that, both as given and with every backslash read as a slash, does not start with three slashes or a control character, has no host or one of the allowed hosts, has no scheme or an allowed one (only https when required), and does not have a scheme without a host. A URL that meets all of this is accepted, an unparsable one (which a byte URL that is not ASCII counts as) is rejected, and no input makes it raise.",
  ["inputs"], "for every URL and every set of allowed hosts",
  "An open-redirect filter must hold for all URLs; there are no tests of it.",
  [HT], [("is_safe_url / _is_safe_url", HT)], ["is_safe_url()"])
P("C27", "Domain patterns match exactly the domain or its subdomains",
  "is_same_domain accepts a host exactly when the pattern is non-empty and, lower-cased, either equals the host or starts with a dot and the host is the pattern without that dot or ends with the pattern including the dot.",
  ["inputs"], "for every host and pattern",
  "There are no tests of it.", [HT], [("is_same_domain", HT)], ["is_same_domain()"])
P("C28", "HTTP dates are parsed as the three RFC formats, else ValueError",
  "parse_http_date accepts a string only if it has one of the three RFC 7231 date forms, anchored at both ends, and returns the UTC timestamp of exactly the fields it names, two-digit years below 70 meaning 20xx and the others 19xx; every other input, including an impossible date, raises ValueError. The safe variant returns None instead of raising, and http_date produces the GMT form.",
  ["inputs"], "for every string",
  "There are no tests of it.", [HT], [("RFC1123_DATE/RFC850_DATE/ASCTIME_DATE and parse_http_date", HT)], ["parse_http_date()", "parse_http_date_safe()", "http_date()"])
P("C29", "Every configuration key overrides exactly its own setting",
  "A settings object built from a dictionary takes each value from its own documented key when the key is present, whatever the value, and the documented default when it is absent; no key changes any other setting. Every setting the parser reads is defined on every settings object that was built from defaults or from a dictionary.",
  ["configurations"], "for every subset of keys and every value",
  "2^6 subsets of keys with arbitrary values; the tests use a few.", [ST], [("Settings.__init__ and Settings.default", ST)], ["Settings(...)"])
P("C30", "An unusable upload directory is refused with InvalidDirectory",
  "When the upload directory is checked, any failure to create it or to create, write or delete the probe file in it raises InvalidDirectory and nothing else; on success the directory is the given one if it is an existing absolute directory, and otherwise it is resolved below the package directory. A directory given in the configuration is always checked, and the probe file is removed again.",
  ["configurations", "fault_sequences"], "for every directory value and every file system failure",
  "File system failures at each step are not exercised.", [ST, FU], [("Settings._check_upload_dir", ST), ("get_abs_path", FU)], ["Settings(...)", "InvalidDirectory"])
P("C31", "One request's charset is used consistently for its text",
  "The charset named in a request's Content-Type (or set on the request) is the one used to decode that request's query string, urlencoded body and raw text body, and in its absence the configured default is used; a query dictionary built with an explicit encoding uses that encoding.",
  ["inputs", "histories"], "for every charset and every source of text",
  "The tests use one or two charsets.", [REQ, MP], [("HttpRequest.encoding", REQ), ("QueryDict encoding", REQ), ("MultiPartParser encoding", MP)], ["HttpRequest.encoding", "QueryDict.encoding"])
P("C32", "Base64 parts are decoded in whole groups, whatever the chunking",
  "File data sent with base64 transfer encoding is decoded from white-space-stripped input in multiples of four characters, fetching more input only to complete a group, so the result does not depend on how the data is split into chunks; data that cannot be decoded raises MultiPartParserError. A base64 field that cannot be decoded is kept as sent, and parts with any other transfer encoding are never decoded.",
  ["inputs"], "for every chunking of every base64 payload, including truncated ones",
  "Base64 uploads are not tested.", [MP], [("base64 handling in MultiPartParser.parse", MP)], ["HttpRequest.FILES", "HttpRequest.POST"])
P("C33", "No public operation fails for interface reasons",
  "Calling any public function, method or property of the package with arguments its signature allows never fails because the library's own code names an attribute, method or name that does not exist, calls one of its own functions with the wrong arguments, or misuses a re-raise helper.",
  ["programs", "inputs"], "for every public operation and every path through it",
  "Uncovered paths (error handling above all) hide such faults; the stable tests cover only three modules.",
  [REQ, MP, DS, ENC, HT, UH, UF, FB, FU, FT, ST, ML, TX], [("every call site and attribute access", REQ)], ["AttributeError/TypeError/NameError from inside the package"])
P("C34", "Importing a handler by dotted path gives that attribute or ImportError",
  "import_string returns the attribute named by the last component of a dotted path from the module named by the rest; a path without a dot, a missing module or a missing attribute raises ImportError and nothing else. Loading a handler passes the request on to the handler class the path names.",
  ["inputs", "configurations"], "for every dotted path",
  "Only the default path is loaded by the tests.", [ML, UH], [("import_string", ML), ("load_handler", UH)], ["import_string()", "load_handler()"])
P("C35", "Scheme, host, port, method and path reported are those of the request",
  "The method, path and protocol reported are the request line's own parts; the host and port come from the request URI when it names a host and otherwise from the header named exactly 'Host' (any one of them when it is repeated), and a request with neither is refused with NoHostFoundException. The scheme is the URI's, lower-cased, or 'UNKNOWN'; a missing port becomes 443 for https, 80 for http and 65536 when the scheme is unknown.",
  ["inputs"], "for every request line and Host header combination",
  "A few combinations are tested.", [REQ], [("parse_request_header", REQ), ("parse_request_line", REQ)], ["HttpRequest.get_*()"])
P("C36", "A multipart body is parsed only with a valid type, boundary and length",
  "A multipart parser is created only if the content type starts with 'multipart/', names a syntactically valid boundary and the content length is not negative; otherwise MultiPartParserError is raised before any body byte is read. A content length of zero or one that is not a number yields empty results without reading the body.",
  ["inputs"], "for every content type, boundary and content length",
  "Invalid combinations are not tested.", [MP], [("MultiPartParser.__init__", MP)], ["MultiPartParser(...)"])
P("C37", "Entity tags are parsed and quoted per RFC 7232",
  "parse_etags returns only substrings of its input that are complete quoted entity tags (optionally weak), all of them in order of appearance among the comma-separated items, or ['*'] for a lone star; quote_etag returns an already quoted tag unchanged and otherwise the text in double quotes.",
  ["inputs"], "for every header string", "There are no tests of it.", [HT], [("ETAG_MATCH, parse_etags, quote_etag", HT)], ["parse_etags()", "quote_etag()"])
P("C38", "Base-36, URL-safe base64 and entity helpers reject what they cannot decode",
  "base36_to_int refuses more than 13 characters and malformed input with ValueError and int_to_base36 refuses negatives with ValueError; urlsafe_base64_decode restores the stripped padding and turns every malformed input into ValueError. unescape_entities leaves every reference it cannot represent unchanged and never raises.",
  ["inputs"], "for every input", "There are no tests of them.", [HT, TX], [("base36/base64 helpers", HT), ("_replace_entity", TX)], ["base36_to_int()", "urlsafe_base64_decode()", "unescape_entities()"])
P("C39", "The data of one multipart part is never taken for another part",
  "Whether the data of a multipart part is read to its end, read in part, skipped by a handler or ignored by the caller, the next part handed out starts behind the boundary that ends the current one: bytes of a part's data are never interpreted as the headers or data of a further part.",
  ["inputs", "histories"], "for every body, every chunking and every amount read from each part",
  "The tests read every part to its end.", [MP, DS], [("Parser.__iter__", MP), ("exhaust", MP)], ["Parser.__iter__", "MultiPartParser.parse()"])
# declined ones
P("C90", "Encoding a query dictionary and parsing it back gives the same dictionary",
  "For every query dictionary of text values, parsing its urlencode() output with the same encoding yields the same keys and value lists in the same per-key order.",
  ["inputs"], "for every content", "Round trips over all strings cannot be sampled.", [REQ, HT], [("QueryDict.urlencode / limited_parse_qsl", REQ)], ["QueryDict.urlencode()"])
P("C91", "Percent-decoding and charset decoding are exact",
  "Percent-encoded octets in query strings are decoded to exactly the characters they encode in the request's charset.",
  ["inputs"], "for every octet sequence and charset", "The value space is unbounded.", [HT], [("unquote calls", HT)], ["limited_parse_qsl()"])
P("C92", "Parsing time is linear in the size of the request",
  "The time to parse a request is bounded by a constant times its size, independent of how the data is arranged.",
  ["inputs"], "for every request", "Tests do not measure growth.", [MP, DS], [("rollback re-scanning", MP)], ["wall time"])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for o in OUT:
        assert len(o["title"]) <= 80, (o["id"], len(o["title"]))
        assert o["statement"].count(". ") <= 3, o["id"]
    with open(p, "w") as f:
        for o in OUT:
            f.write(json.dumps(o) + "\n")
    print(len(OUT))
