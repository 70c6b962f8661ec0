#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C = "pillowcore/"
p("C01", "A valid request reaches the handler exactly as sent, however it is segmented",
  "For every well-formed HTTP request whose head fits in 32 KiB, delivered to a connection in any split of its bytes over any number of reads, the connection announces the request exactly once and exposes the method, URI, path, query string, fragment, HTTP version, headers (names, values, order, duplicates) and body exactly as sent. The raw fields are null-terminated, nothing is announced before the last byte has arrived, and a request with Expect: 100-continue and a body receives exactly one '100 Continue' before its body is awaited. The result does not depend on how the bytes were segmented or on what earlier data the connection's buffers held.",
  ["inputs", "schedules"], "all well-formed requests (grammar-generated methods, URIs, headers, bodies of 0 bytes to megabytes) times all segmentations of their bytes into reads",
  "The tests feed a dozen literal requests, split at a handful of hand-chosen points; they cannot cover every request times every split, nor the buffer reallocation boundaries.",
  [C+"HttpConnection.cpp", C+"parser/parser.c", C+"ByteArrayHelpers.h"],
  [("incremental Ragel parser keeping offsets across reads", C+"parser/parser.c:thin_http_parser_execute"), ("header refs resolved only once the head is complete, re-resolved after the body reallocation", C+"HttpConnection.cpp:setupRequestHeaders/transitionToSendingHeaders")],
  ["requestReady signal", "request* accessors", "bytes written to the output device"],
  [("_requestBuffer", "all bytes of the request being received", C+"HttpConnection.cpp"), ("_requestHeadersRef", "offsets of header names and values", C+"HttpConnection.cpp")])
p("C02", "Malformed or oversized requests are refused cleanly and never reach a handler",
  "For every byte stream that is not a well-formed request head, or whose head exceeds 32 KiB (MaximumRequestHeaderLength), whose Content-Length is negative, not a number, or larger than 128 MiB (MaximumRequestContentLength), the connection announces no request for it. It answers with exactly one response 'HTTP/1.0 400 Bad Request' (413 for a Content-Length that is not an integer or too large) carrying 'Connection: close', then closes; requests completed earlier on the connection are unaffected. The verdict is the same for every segmentation, and no input makes the process crash, hang, or read or write outside its buffers.",
  ["inputs", "schedules"], "all byte streams (mutations of valid requests, boundary sizes, random bytes) times segmentations, alone or after valid requests",
  "The tests try a few literal bad requests and one oversized head; memory safety and clean refusal must hold for every input.",
  [C+"HttpConnection.cpp", C+"parser/parser.c"],
  [("parser error state", C+"parser/parser.c:thin_http_parser_has_error"), ("limits and error response", C+"HttpConnection.cpp:processInput/transitionToReceivingContent/writeRequestErrorResponse")],
  ["requestReady count", "bytes on the output device", "closed signal", "AddressSanitizer"])
p("C03", "Successive requests are each handled once, in order, with no residue",
  "For every sequence of requests sent on one connection - pipelined or not, with bodies, cut at arbitrary byte positions, answered immediately or later - each request is announced exactly once, in order, only after the response to the previous one is complete, and the responses appear on the wire in request order. Each request exposes only its own data: no header, parameter (including ones set by the handler), decoded field, body byte or response setting of an earlier request on that connection, or of an earlier client of a re-initialized connection object, is visible or influences its response. When a response ends the connection, nothing that follows it is handled.",
  ["histories", "schedules", "inputs"], "all sequences of requests and response styles on a connection (and on re-initialized connection objects), all segmentations and all interleavings of arrival and answer",
  "The tests pipeline two or three identical requests and reuse a connection a few times; residue depends on the particular history.",
  [C+"HttpConnection.cpp"],
  [("leftover bytes are kept when a request completes and parsed next", C+"HttpConnection.cpp:transitionToCompleted"), ("per-request state is reset", C+"HttpConnection.cpp:transitionToReceivingHeaders/transitionToSendingHeaders/initialize")],
  ["requestReady signal and request accessors", "output byte stream parsed into responses"])
p("C04", "Every response on the wire is the one the handler asked for, validly framed",
  "For every sequence of response calls a handler makes (status code, headers, whole content, or header block followed by pieces of content and an end), the bytes sent parse as exactly one HTTP response with the request's HTTP version, the status code (500 with its reason when the code is not a known one), the handler's headers unchanged and in order, and as body exactly the content accepted. The body is delimited by Content-Length when the length is known (including lengths beyond 2 GiB), by well-formed chunks including the terminator when the handler asked for chunked on HTTP/1.1, otherwise by closing the connection; a response to HEAD has the same header block as to GET and no body. Content beyond the announced length is refused as a whole, invalid or negative Content-Length values never reach the wire, and a text/plain Content-Type is supplied only when a non-empty response lacks one.",
  ["inputs", "histories"], "all status codes, header collections, contents and sequences of response calls, on HTTP/1.0 and 1.1, GET/HEAD/other methods",
  "The tests compare a few literal responses; framing must be right for every combination of length, chunking, method and version.",
  [C+"HttpConnection.cpp", C+"private/ByteArray.h", C+"HttpHelpers.cpp", C+"ByteArrayHelpers.h"],
  [("writeHeaders/writeContent/endContent", C+"HttpConnection.cpp"), ("number formatting", C+"ByteArrayHelpers.h:appendNumber")],
  ["output byte stream parsed by an independent HTTP parser"])
p("C05", "Keep-alive is decided correctly and announced consistently",
  "After each response the connection stays open for another request if and only if the client wants it (HTTP/1.1 unless 'Connection: close'; HTTP/1.0 only with 'Connection: keep-alive', names and values case-insensitive), the handler did not say 'Connection: close', and the response's end can be recognised without closing (known length or chunked). When the connection is closed after a response the response says 'Connection: close', when it is kept on HTTP/1.0 it says 'Connection: keep-alive', and the response never announces the opposite of what happens. When it closes, it does so only after the whole response was delivered.",
  ["inputs", "histories"], "all combinations of request version, request Connection header, response Connection header, content-length, chunked, method, and call sequence",
  "Tests cover individual rows of the decision table; combinations (HEAD, late end of content, invalid lengths, mixed case) are not enumerated.",
  [C+"HttpConnection.cpp"],
  [("negotiation in writeHeaders", C+"HttpConnection.cpp:writeHeaders"), ("transition after completion", C+"HttpConnection.cpp:transitionToCompleted/transitionToFlushing")],
  ["Connection header on the wire", "whether a following request is handled", "closed signal"])
p("C06", "The connection survives any call order, reentrancy and peer disconnect",
  "For every interleaving of arriving bytes, response calls in any state, close() at any moment (also from inside any of the connection's own signals), and the device closing, the connection never crashes, corrupts memory or gets stuck: calls made in the wrong state have no effect on the wire or the state, requestReady and requestCompleted alternate one to one for every completed response, and closed is emitted exactly once per session and last. Once closed, nothing more is announced or written and the devices are closed; a connection object initialized again afterwards serves the next session like a new one.",
  ["histories", "schedules", "fault_sequences"], "all sequences of feed/respond/close/flush/device-close operations, including from within signal handlers, on in-memory devices and sockets",
  "The tests call close() and wrong-state methods at a few points from outside signals; reentrancy and disconnects at every point are not reached.",
  [C+"HttpConnection.cpp", C+"HttpServer.cpp"],
  [("state checks at each entry point", C+"HttpConnection.cpp"), ("transitionToClosed", C+"HttpConnection.cpp:transitionToClosed")],
  ["state()", "requestReady/requestCompleted/closed signals", "device state and output"])
p("C07", "Percent-decoding and query parameters follow one definition for every request",
  "For every request, the decoded URI, path, query string and fragment are the UTF-8 reading of the raw field with each '%' that is followed by two characters replaced by the byte they spell in hexadecimal (a non-hex digit counts as 0), a '%' with fewer than two characters after it kept as is, and '+' untouched. The request parameters are the '&'-separated pieces of the raw query string, split at the first '=' and decoded likewise, in order and with duplicates (a piece without '=' has a null value); looking up a name is case-insensitive and yields the first match, and setting a parameter replaces the first match or appends. Fields of every length, including beyond 1024 bytes, decode alike.",
  ["inputs", "histories"], "all raw query strings, paths and fragments admitted by the grammar, all lengths, and all sequences of parameter reads and writes",
  "Tests decode a handful of short literals; the fixed-size fast path, truncated escapes and parameter edits must hold for every input.",
  [C+"ByteArrayHelpers.h", C+"HttpConnection.cpp"],
  [("percentDecode (stack buffer below 1024 bytes, heap above)", C+"ByteArrayHelpers.h:percentDecode"), ("lazy parameter parsing", C+"HttpConnection.cpp:requestParams")],
  ["request*Decoded accessors", "requestParams/requestParamValue/setRequestParam"])
p("C08", "A slow reader still receives every byte of every response, unaltered",
  "For every sequence of responses (whole, piecewise, chunked, echoing the request body, pipelined, ending with keep-alive or close) and every pace at which the client reads, the bytes the client receives are exactly the concatenation of the complete responses: nothing is lost, duplicated, reordered, overwritten by later traffic or cut short by the close. The connection is closed only after everything buffered was handed to the transport. Memory stays valid while output is still pending.",
  ["schedules", "histories", "inputs"], "all paces of reading and sizes of responses, over in-memory devices with arbitrary partial drains and over real TCP sockets whose buffers fill up",
  "Tests read small responses at once, so the pending-output states are hardly ever entered.",
  [C+"HttpConnection.cpp", C+"private/ByteArray.h", C+"ByteArrayHelpers.h"],
  [("Flushing state waits for bytesToWrite()==0", C+"HttpConnection.cpp:transitionToFlushing/drain"), ("buffers are reused across responses", C+"HttpConnection.cpp:_responseHeadersBuffer/_requestBuffer")],
  ["bytes received by the client", "AddressSanitizer"])
p("C09", "The file handler serves exactly the file's bytes, whatever the size and buffer",
  "For every regular file below the public path and every buffer size, a GET is answered 200 with Content-Length equal to the file's size, the documented Content-Type for its extension (case-insensitive) and a body equal to the file's bytes, however slowly the client reads and whether the connection is kept alive or pipelined; HEAD gets the same header block and no body, and neither affects any later response on the connection. A file larger than the buffer is streamed: at any reader's pace, what waits to be sent stays in the order of the buffer size. A file that fits in the buffer also carries an ETag that is a function of its content alone, and a request whose If-None-Match equals it is answered 304 without body. A file that can not be opened is answered 403. A file that grows while it is sent is sent up to the announced length, and when one becomes too short the connection is closed instead of waiting forever. Once a response is complete or its connection closed or destroyed, its file is open no more. Requests that name a directory or nothing at all are declined without writing anything.",
  ["inputs", "histories", "schedules"], "all file contents and sizes around multiples of the buffer size, names needing percent-encoding, buffer sizes, methods, reading paces and request sequences",
  "Tests serve a few small files and two large ones from a fast reader.",
  [C+"HttpHandler.cpp", C+"HttpHelpers.cpp"],
  [("whole-file path with MD5 ETag", C+"HttpHandler.cpp:HttpHandlerFile::handleRequest"), ("incremental transfer on bytesWritten", C+"HttpHandler.cpp:HttpHandlerFileTransfer")],
  ["response bytes", "return value of handleRequest"])
p("C10", "The file handler never serves anything outside its public directory",
  "For every request path - with any mix of '..', '.', repeated or encoded slashes, percent-encoding, absolute pieces, symbolic links and names that share a prefix with the public directory - a file is served only if its real location is inside the configured public directory. Everything else is declined with nothing written to the connection, and files inside are still served. An empty public path serves nothing.",
  ["inputs", "configurations"], "all request paths over generated directory trees with sibling directories, symlinks in and out, and files inside and outside the root",
  "Tests try one '..' path and one symlink against one tree.",
  [C+"HttpHandler.cpp"],
  [("canonical path prefix check", C+"HttpHandler.cpp:HttpHandlerFile::handleRequest")],
  ["response bytes and return value, compared to realpath containment"])
p("C11", "The router sends each request to the first matching route, with its parameters",
  "For every route table and request, the request goes to the first added route whose pattern matches the whole percent-decoded path (':name' one or more word characters or '-', '*name' any text, any other text itself, with characters special in a QRegExp keeping that meaning) and whose method is unset or equals the request's method ignoring case, where with the method parameter accepted a non-empty '_method' parameter takes the place of the request's method. A route given no target object or member is not added, and a target that was destroyed is not called. The target is invoked exactly once with each ':name' and '*name' parameter set to the text it matched, and no other route is touched. If no pattern matches, or patterns match but no method does, the request is declined untouched or answered 404, respectively 405 with an Allow header listing the methods of the matching routes in order, as configured.",
  ["inputs", "configurations"], "all route tables (handler, slot, functor and static targets, any order of parameters and splats) and all request methods, paths and _method parameters",
  "Tests use a few fixed tables; precedence, parameter naming and method handling must hold for every table.",
  [C+"HttpHandlerSimpleRouter.cpp"],
  [("pattern to regular expression with parameter names", C+"HttpHandlerSimpleRouter.cpp:pathToRegExp"), ("first match loop", C+"HttpHandlerSimpleRouter.cpp:handleRequest")],
  ["which target ran with which parameters", "response bytes", "return value"])
p("C12", "Handler composition: a stack offers each request in order until one takes it",
  "For every tree of handlers, a stack offers the request to its child handlers in the order they were added, stops at the first that accepts and reports whether any did; non-handler children are ignored and later handlers are never consulted. The fixed handler always answers with its current status and content, the 404 handler with 404 and a body naming the request path, and a function handler runs its function exactly once and accepts, or declines when it has none. Changing a handler's settings affects exactly the following requests; for the fixed handler, changed() is emitted exactly once when a setting really changes, with the new value already readable, and not when it is set to what it is.",
  ["configurations", "inputs", "histories"], "all handler trees (nested stacks, fixed, function, 404, probes that accept or decline) and all request and reconfiguration sequences",
  "Tests use two or three fixed stacks.",
  [C+"HttpHandler.cpp"],
  [("children iteration", C+"HttpHandler.cpp:HttpHandlerStack::handleRequest"), ("Fixed/404/Function handlers", C+"HttpHandler.cpp")],
  ["which probes were called", "response bytes", "return value"])
p("C13", "The log handler writes one truthful line per completed request",
  "For every sequence of requests over any number of connections, the log handler writes, when a request completes, exactly one line with the client address (empty if unknown), the time, the method, URI and HTTP version exactly as received in quotes, the status code sent, the response length (-1 if unknown) and the elapsed seconds; in trace mode it instead writes one BEGIN line when the request is first seen, one END line when it completes and one CLOSE line when the connection closes. No request is logged twice or under another's data, whatever characters its URI contains, and the handler never accepts or alters a request. Lines for concurrent connections may interleave but each is whole.",
  ["inputs", "histories"], "all interleavings of requests over several connections, all URIs the parser admits (including '%' sequences), response styles, modes and mode changes between requests, closes and connection destruction",
  "Tests log a few requests with plain URIs.",
  [C+"HttpHandler.cpp"],
  [("timer map and signal connections per connection", C+"HttpHandler.cpp:HttpHandlerLog"), ("line formatting", C+"HttpHandler.cpp:requestCompleted")],
  ["bytes written to the log device"])
p("C14", "The proxy relays requests and responses transparently",
  "For every request handled by the proxy, the origin server receives one request with the same method, path, query string (up to equivalent percent-encoding and normalized dot segments), headers (those not specific to the transport; repeated ones may be merged; a User-Agent, Accept-Encoding or Accept-Language may be added) and body (except on HEAD, where it may be dropped); and for every complete response of the origin, the client receives the same status code (500 for those outside the library's status table), headers (repeated ones may be merged, Set-Cookie may not) and body bytes as the origin encoded them, validly framed and completed, whether the origin uses Content-Length, chunked or close-delimited framing, whatever the status (including 4xx and 5xx with or without body), HEAD, segmentation or pacing. Concurrent proxied requests, including more than six at once, never mix, nor do the cookies of different clients. With no target URL configured the request is declined.",
  ["inputs", "schedules", "histories"], "all requests and origin responses (status, headers, framing, sizes), segmentations of the origin's output, and up to a dozen or more concurrent clients",
  "Tests relay a few literal exchanges; error statuses, framings and concurrency combine freely in use.",
  [C+"HttpHandlerProxy.cpp"],
  [("request translation", C+"HttpHandlerProxy.cpp:handleRequest/createProxiedReply"), ("response pipe", C+"HttpHandlerProxy.cpp:HttpHandlerProxyPipe"), ("one manager per six requests", C+"HttpHandlerProxy.cpp:ElasticNetworkAccessManager")],
  ["bytes at a scripted origin", "bytes at the client"])
p("C15", "The proxy turns every origin or client failure into a clean outcome",
  "For every failure of the origin - refused connection, close before or inside the response head, invalid response - the client receives a 503 if nothing was sent yet; if the origin dies after its response started, the client's connection is terminated so that it can tell the response is incomplete, and the client is never left waiting. For every moment at which the client disconnects, the proxy stops without crash, leak into another response, or effect on other requests, and later requests through the same proxy work.",
  ["fault_sequences", "schedules"], "all cut points of the origin's response, error kinds, and client disconnect moments, with other requests in flight",
  "Tests cover a refused connection and one client close.",
  [C+"HttpHandlerProxy.cpp", C+"HttpConnection.cpp"],
  [("proxiedReply_finished error branch", C+"HttpHandlerProxy.cpp:proxiedReply_finished"), ("teardown on client close/destroy", C+"HttpHandlerProxy.cpp:teardown")],
  ["bytes and end-of-stream at the client", "AddressSanitizer"])
p("C16", "The response parser gives one answer for a response, however it is fed",
  "For every byte stream and every way of cutting it into pieces (empty ones included, with end-of-stream signalled at the end or not), the response parser reports the same complete responses - status, version, headers, content, keep-alive and needs-EOF answers - and the same error, if any, and consumes each response exactly up to its last byte. For valid responses these are what an independent reading of the message yields: Content-Length, chunked with extensions and trailers (appended to the headers), close-delimited, and no content for 1xx, 204 and 304 whatever their headers say. A response that breaks the grammar (version, status, header names, a length or chunk size that is not a number below 2^64, chunks not ended by a line break), exceeds the header limit of 80 KiB or is cut short by end-of-stream is an error, never a complete response. After a complete response that keeps the connection alive, and after clear() whatever came before it (errors, truncation, end-of-stream), the next response is parsed as by a fresh parser, with no header or content of a previous one. Pausing or clearing from inside a callback stops consumption there without losing or repeating bytes.",
  ["inputs", "schedules", "histories"], "all response byte streams (valid, mutated, random), all segmentations, and all sequences of responses, errors and clears on one parser",
  "Tests feed literal responses whole or byte by byte and clear at a few points.",
  [C+"HttpClient.cpp", C+"parser/http_parser.c", C+"parser/http_parser.h"],
  [("http_parser state machine", C+"parser/http_parser.c:http_parser_execute"), ("header accumulation and reset", C+"HttpClient.cpp:HttpResponseParser")],
  ["parser accessors and callbacks"])
p("C17", "The client puts exactly the requested message on the wire",
  "For every method, URL, header collection and body, the request writer and the client send exactly one well-formed HTTP/1.1 request: the method, the encoded path and query of the URL ('/' when the path is empty), for the client a Host header naming the URL's host and its port unless it is 80, the given headers unchanged and in order, and, when the body is not empty, a Content-Length equal to the body's size followed by the body byte for byte. This holds for every size of header block and body and for every sequence of requests on the same writer or client; nothing of an earlier request appears in a later one.",
  ["inputs", "histories"], "all methods, URLs, header sets and bodies (0 bytes to beyond the internal thresholds), in sequence on one writer/client and across hosts",
  "Tests compare a handful of literal requests.",
  [C+"HttpClient.cpp"],
  [("HttpRequestWriter::write", C+"HttpClient.cpp"), ("Host header and URI building", C+"HttpClient.cpp:sendRequest")],
  ["bytes written to a device and received by a raw server"])
p("C18", "Every client request ends in exactly one truthful outcome",
  "For every sequence of requests on a client and every server behaviour (any segmentation, interim 1xx responses, Content-Length, chunked or close-delimited bodies, HEAD, keep-alive or close, premature close, garbage, refused connection) each request that is sent finishes exactly once: without error and with exactly the status, headers and content the server sent if the response was complete, otherwise with the error that tells what happened (network error, invalid response, remote host closed, aborted). Content consumed in pieces, also with a limited read buffer, concatenates to the same content; abort() from anywhere finishes a pending request with the abort error and the client can be used again; a request issued while another is pending is refused and one issued from within a finished handler is sent; redirects are reported and followed to the location the server gave (relative ones resolved against the request's URL). A response delimited by the end of the connection is complete when the server closes. The next request to the same server goes out on the same connection if the response left it open and the keep-alive timeout has not passed, and on a new one otherwise. Nothing of one response shows up in another.",
  ["histories", "schedules", "fault_sequences", "inputs"], "all histories of requests, aborts, redirects and consumption on one client against scripted servers, all segmentations and failure points",
  "Tests exercise each behaviour once with simple responses; combinations and cut points are not covered.",
  [C+"HttpClient.cpp", C+"parser/http_parser.c"],
  [("device_readyRead/device_error/messageComplete", C+"HttpClient.cpp:HttpClient")],
  ["headersCompleted/contentReadyRead/finished signals", "client accessors"])
p("C19", "Gzip content is decoded transparently and undecodable content passes through",
  "For every body, when the server sends it gzip-compressed with 'Content-Encoding: gzip' (any compression level, any framing, any segmentation, any expansion ratio), the client's content is the original body. A body labelled gzip that is not gzip from its first byte on is delivered unchanged, and other bodies are never altered. Decoding state never carries over from one response to another on the same client, also when an earlier response was aborted, truncated or corrupt.",
  ["inputs", "schedules", "histories"], "all bodies, compression settings, segmentations, and sequences of gzip, plain, corrupt and interrupted responses on one client",
  "Tests decode one 49-byte file.",
  [C+"HttpClient.cpp"],
  [("GunzipContentTransformer", C+"HttpClient.cpp"), ("decoder created in headersComplete and dropped in messageComplete", C+"HttpClient.cpp")],
  ["client content()"])
p("C20", "Network access manager replies report exactly what the server answered",
  "For every request made through the network access manager (GET, HEAD, POST, PUT, DELETE and custom verbs, with headers and body), the server receives that request, and the reply finishes exactly once with the status, raw headers, redirection target and body of that server's response, delivering its bytes through readyRead as they arrive; any number of concurrent requests to any hosts never mix, and idle connections are reused. A failure finishes the reply with the matching error reported both by the error signal and by error(). Cookies set by responses are stored in the jar and sent on later matching requests.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all batches of concurrent and successive requests to several servers with generated responses and failures, aborts included",
  "Tests make single requests with simple responses.",
  [C+"HttpClient.cpp"],
  [("NetworkReply", C+"HttpClient.cpp:NetworkReply"), ("client pool by authority", C+"HttpClient.cpp:NetworkAccessManager::createRequest/client_finished")],
  ["QNetworkReply accessors and signals", "requests at raw servers"])
p("C21", "A server keeps concurrent clients apart over every transport",
  "For every number of clients connecting, sending (keep-alive, pipelined, fragmented), abandoning and reconnecting at any moment to a TCP, local-socket or TLS server, each client receives exactly the responses to its own requests, in its own order, and every complete request is announced once. A client that disconnects or misbehaves never disturbs the others, and pooled connection objects carry nothing from one client to the next, whatever the number of clients. Handlers see the client's own address, and may close any number of connections at once. What belonged to departed clients is released, and what a server keeps to serve them does not grow with the number of clients that came and went. The server can be destroyed at any moment without crashing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of many clients' connects, partial sends, responses, disconnects over TCP, local sockets and TLS, including more clients than the connection pool holds",
  "Tests run one or a few well-behaved clients.",
  [C+"HttpServer.cpp", C+"HttpsServer.cpp", C+"HttpConnection.cpp"],
  [("connection pool of 25", C+"HttpServer.cpp:HttpServerPrivate"), ("initialize() of reused connections", C+"HttpConnection.cpp:initialize")],
  ["bytes at each client", "requestReady announcements"])
p("C22", "Header collections and helper functions obey their laws for every value",
  "For every list of headers, appending (single headers, other collections, itself) yields the concatenation, lookups by name ignore ASCII case only and return the first (or, in order, all) values, testing a value ignores case and considers every header of that name, and a raw 'Name: value' string splits at its first colon with following spaces removed. Number formatting in base 10 and 16, case-insensitive comparison, percent-decoding, status texts, MIME types by extension and HTTP dates (RFC 1123, GMT, years 1000 to 9999) equal their reference definitions for every argument, the smallest and largest numbers of each integer type included. The results never depend on the arguments sharing or not sharing storage.",
  ["inputs", "histories"], "all strings, numbers in the documented type's range, dates, and sequences of collection operations",
  "Tests check a few literals per function.",
  [C+"HttpHeader.cpp", C+"HttpHeader.h", C+"ByteArrayHelpers.h", C+"HttpHelpers.cpp", C+"private/ByteArray.h"],
  [("HttpHeaderCollection operators and lookups", C+"HttpHeader.cpp"), ("ByteArrayHelpers", C+"ByteArrayHelpers.h")],
  ["return values against reference implementations"])
p("C23", "A script handler sees the request as it is; its answer or error is delivered",
  "For every request, the script function is called once with an object whose method, URI, path, query string, fragment, headers, parameters and content are the percent-decoded text of the request's, and what it writes through the native request is what the client receives; the handler accepts exactly when the script returns a true value. A script that throws anything before answering gives the client a 500 response and never leaves the engine unusable or the request unanswered; what it wrote before throwing later stays as written. The engine is always left in its own scope, and nothing a script file declares becomes global. A file-based script handler reports a missing file, an evaluation error or a missing function as a 500, and picks up a changed script - newer or older - when automatic reload is on, and only then, or when its file or function name is changed.",
  ["inputs", "histories", "configurations"], "all requests, script behaviours (answer, decline, throw error or other values, late throw) and sequences of script file changes",
  "Tests hardly touch the script handlers, and cannot sample what scripts may do.",
  [C+"HttpHandlerQtScript.cpp"],
  [("request object construction and error handling", C+"HttpHandlerQtScript.cpp:handleRequest"), ("reload by modification time", C+"HttpHandlerQtScript.cpp:HttpHandlerQtScriptFile::handleRequest")],
  ["values seen by the script", "response bytes", "return value"])
p("C24", "Client and server agree end to end on every exchange",
  "For every sequence of exchanges between this library's client and this library's server over TCP, with any method, path, query, headers and body and any way of answering (whole, piecewise with known length, chunked, close-delimited, HEAD, 100-continue, any status), the handler sees exactly what the client sent and the client finishes without error with exactly the status, headers and content the handler wrote. This holds across kept-alive, closed and re-opened connections and for bodies of any size. The number of requests handled equals the number of requests finished.",
  ["inputs", "histories", "schedules"], "all sequences of exchanges over kept-alive and re-opened connections, sizes from empty to megabytes, all answer styles",
  "Tests pair client and server for a few literal exchanges.",
  [C+"HttpClient.cpp", C+"HttpConnection.cpp", C+"HttpServer.cpp"],
  [("both ends' framing", C+"HttpConnection.cpp"), ("client parsing", C+"HttpClient.cpp")],
  ["server-side request accessors", "client accessors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
