#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay reviewable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- HTTP, input side
prop("H01", "Request line and header block are parsed exactly, or the request is refused",
 """Parsing a received request succeeds exactly when it has two space-terminated words (method, then path of at most
 511 bytes) and a blank line ending the header block inside the received bytes. On success the method is the first word
 (cut to 15 bytes), the path is the second word, and the header block is byte-for-byte everything received up to and
 including the first blank line, with its length.""",
 ["inputs"], "every request byte string (any bytes, any length, wherever the spaces and the blank line fall)",
 "unit tests parse six fixed curl-like requests; none has a long word, a missing blank line, a NUL, or a blank line at the edge of the received bytes",
 ["src/parse.c", "include/types.h"],
 [("m38_parse_request: bounded searches for the two spaces and for CRLFCRLF, copies into fixed-size fields", "src/parse.c:m38_parse_request")],
 [("verb/resource/full_header/header_len", "parsed request handed to routing and handlers", "include/types.h")],
 ["return value and fields of the parsed request"])

prop("H02", "Header lookup returns that header's value and nothing else",
 """Looking up a header name in a request text (no NUL bytes) returns a copy of the value on the first line that consists of exactly that
 name, a colon, optional blanks and the value, without its line ending. When no complete line has that name the result
 is 'absent': the name occurring inside another header's name, inside a value or in the path never counts, and no
 input makes the lookup read outside the request text.""",
 ["inputs"], "every request text and every header name",
 "no unit test calls the lookup directly; the end-to-end tests only contain headers that are present once and well formed",
 ["src/parse.c"], [("m38_get_header_value_raw / m38_get_header_value_request", "src/parse.c:m38_get_header_value_raw")],
 (), ["returned string"])

prop("H03", "The handler sees exactly the body bytes that were received",
 """The body given to a handler is exactly the received bytes that follow the header block, cut to Content-Length, with
 every byte value (including NUL) preserved, its length reported, and a terminating NUL behind it. When Content-Length
 is positive but no body byte came with the header block, the body is what the next read of the connection delivers, cut to Content-Length;
 body bytes without a positive Content-Length make the request be refused.""",
 ["inputs", "histories"], "every body, every Content-Length value (smaller, equal, larger, negative, non-numeric) and both arrival orders",
 "tests use text bodies whose length equals Content-Length and never the second read",
 ["src/parse.c", "src/grengine.c"],
 [("m38_parse_body", "src/parse.c:m38_parse_body"), ("attempt_reread_from_socket", "src/grengine.c:attempt_reread_from_socket"), ("Content-Length handling", "src/grengine.c:m38_generate_response")],
 [("full_body/body_len", "request body seen by handlers", "include/types.h")], ["request record inside a handler"])

prop("H04", "Form-encoded bodies become exactly the submitted fields",
 """For a form-encoded body without NUL bytes, each '&'-separated 'name=value' pair whose value is validly percent-encoded and contains no encoded NUL is found
 under its name (bytes before '=') with the decoded value of the right length; the last of several pairs with the same name wins,
 pairs without '=' or with a malformed escape add nothing, and no name that was not submitted is found.
 The body itself stays available to the handler unchanged, and no body corrupts memory, whatever its length.""",
 ["inputs"], "every form body: any number of pairs, repeated names, empty names and values, escapes anywhere, names longer than 255 bytes",
 "the single form test has two short distinct pairs without any escape",
 ["src/parse.c", "src/simple_sparsehash.c", "src/utils.c"],
 [("m38_parse_form_encoded_body", "src/parse.c:m38_parse_form_encoded_body"), ("m38_url_decode", "src/utils.c:m38_url_decode"), ("sparse_dict_set", "src/simple_sparsehash.c:sparse_dict_set")],
 [("form_elements", "dictionary of submitted fields", "include/types.h")], ["sparse_dict_get on the request's form elements; request body after parsing"])

prop("H05", "URL decoding is exact and rejects malformed escapes",
 """Decoding replaces every '+' by a space and every '%' followed by two hexadecimal digits (either case) by the byte they denote,
 copies every other byte unchanged, NUL-terminates, and returns the decoded length including that terminator. A '%' not followed by two hexadecimal digits is
 rejected with -1, and the output never takes more room than the input with its terminator.""",
 ["inputs"], "every NUL-terminated string",
 "no unit test calls the decoder with an escape",
 ["src/utils.c"], [("m38_url_decode", "src/utils.c:m38_url_decode")], (), ["return value and output buffer"])

prop("H06", "Cookie lookup returns that cookie's value and nothing else",
 """Looking up a cookie name in a Cookie header value returns a copy of exactly the bytes between '=' and the next ';' (or the end)
 of the first 'name=value' item with exactly that name. If no item has that name the result is 'absent': the name
 occurring inside another cookie's name or value never counts.""",
 ["inputs"], "every cookie string and every cookie name, with the string's length given exactly",
 "no unit test touches cookies",
 ["src/utils.c"], [("m38_get_cookie_value", "src/utils.c:m38_get_cookie_value")], (), ["returned string"])

prop("H07", "Range headers are parsed to the requested interval",
 """'bytes=A-B' with decimal A <= B yields offset A and limit B; 'bytes=A-' and 'bytes=A-B' with B < A yield offset A and no
 limit (0). A value that does not start with 'bytes=', has no '-', or whose first number does not fit a long yields 0/0, and one whose second number does not fit yields offset A and no limit.""",
 ["inputs"], "every header value: all digit strings for A and B, and arbitrary malformed strings",
 "the only range unit test never calls the range parser",
 ["src/parse.c"], [("m38_parse_range_header", "src/parse.c:m38_parse_range_header")], (), ["returned limit/offset"])

# ---------------------------------------------------------------- HTTP, output side
prop("H08", "Responses are well-framed HTTP carrying exactly the handler's bytes",
 """For every supported status code (200, 301, 302, 400, 403, 404, 500) the bytes produced for a handled request (when no range is requested) are: the status line of that code, Content-Type (the handler's,
 or text/html if it set none), Content-Length equal to the body size, Connection: close, the handler's custom headers, the
 Server line, one blank line, and then exactly the handler's body bytes, and the recorded total length counts exactly those bytes.""",
 ["inputs"], "every status code the server supports, every body (any bytes, any size, including empty), every mimetype up to 31 bytes and any custom headers",
 "no test calls the response generator",
 ["src/grengine.c", "include/utils.h"],
 [("m38_generate_response header/body assembly", "src/grengine.c:m38_generate_response"), ("response_headers table", "src/grengine.c"), ("UINT_LEN", "include/utils.h")],
 [("response_bytes/response_len", "bytes to be transmitted", "include/types.h")], ["the handled request returned by m38_generate_response"])

prop("H09", "Partial responses carry exactly the requested slice",
 """When a request asks for a range and its handler succeeds with status 200 and a non-empty body, the client gets a 206 whose body is exactly the
 content bytes from A to min(B, last) for 'bytes=A-B' with A <= B, 0 < B and A inside the content, from A to the last byte for 'bytes=A-', and the whole content for a
 malformed range or an A outside the content. Content-Range states that first byte, last byte and the content's full size, Content-Length
 equals the number of body bytes sent, and no byte that is not from the content is ever sent; responses other than 200 are not turned into partial ones.""",
 ["inputs"], "every Range value and every content size",
 "no test produces a partial response",
 ["src/grengine.c", "src/parse.c"], [("206 branch of m38_generate_response", "src/grengine.c:m38_generate_response"), ("m38_parse_range_header", "src/parse.c")],
 (), ["response bytes and length"])

prop("H10", "Routing picks the first matching route and falls back to the 404 handler",
 """The handler that runs is that of the first route, in table order, whose method equals the request's method and whose regular expression
 matches the path, with the sub-match offsets the route asked for. If no route matches, or the chosen handler
 answers 404 without content, the response comes from the application's 404 handler if it has one and from the built-in 404 page otherwise.""",
 ["inputs", "configurations"], "every request method and path against every table of routes within the bound, with and without a custom 404 handler",
 "no test drives routing",
 ["src/grengine.c", "src/server.c"], [("route search and 404 fallback in m38_generate_response", "src/grengine.c:m38_generate_response"), ("r_404_route", "src/grengine.c")],
 (), ["which handler runs, the response code and bytes"])

prop("H11", "Sending delivers every response byte once, in order, then cleans up once",
 """However many bytes each send accepts, the bytes put on the wire are the response's bytes, in order, each exactly once, and a send never offers bytes
 outside what is left. When the last byte is accepted the route's cleanup runs exactly once with the response's status and the connection is closed once; if a send fails, cleanup
 runs exactly once as well, with the response's status, the connection is closed once, and nothing more is sent.""",
 ["fault_sequences", "histories"], "every response length and every sequence of full, short and failing sends",
 "no test sends anything; short writes cannot be provoked on demand",
 ["src/grengine.c"], [("m38_send_response", "src/grengine.c:m38_send_response")],
 [("sent", "bytes accepted so far", "include/types.h")], ["arguments of send/close and the cleanup callback"])

prop("H12", "A finished request leaves no memory or descriptor behind",
 """Once a request has been answered completely, failed while sending, or been refused, every block of memory allocated for it has been freed exactly once
 and its connection has been closed exactly once by the server, whatever the request's headers, body, form fields or range and the handler's result.""",
 ["inputs", "fault_sequences", "histories"], "every outcome of parsing, routing, handling and sending",
 "tests never check for leaks and exit right after one parse",
 ["src/grengine.c", "src/parse.c", "src/simple_sparsehash.c", "src/server.c"],
 [("release of request buffers in m38_generate_response", "src/grengine.c:m38_generate_response"), ("_clean_up_extra_headers, m38_send_response", "src/grengine.c"), ("sparse_dict_free", "src/simple_sparsehash.c")],
 (), ["allocator and close calls"])

prop("H13", "No client input can crash, hang or corrupt a worker",
 """Whatever bytes a client sends and however its connection delivers them (split, short, closed early, reset), handling its connection terminates, stays
 inside the memory it owns, uses no uninitialised data, and ends in either a complete response or a refusal of that connection only.""",
 ["inputs", "fault_sequences"], "every request byte string and every sequence of receive results within the bound",
 "tests feed only well-formed requests directly to the parser; no receive error is ever produced",
 ["src/grengine.c", "src/parse.c", "src/utils.c", "src/simple_sparsehash.c"],
 [("read_max_bytes_from_socket", "src/grengine.c:read_max_bytes_from_socket"), ("m38_generate_response", "src/grengine.c"), ("parsers", "src/parse.c")],
 (), ["memory accesses, termination and result of m38_generate_response"])

prop("H14", "Static files are served whole, with the right type, and released once",
 """Serving a readable regular non-empty file yields status 200 with exactly the file's bytes, its extension's MIME type in any letter case (application/octet-stream for
 an unknown extension, text/html if the name has no dot) unless the handler set one, and cleanup unmaps exactly the mapped region and frees its bookkeeping once. A missing, unopenable or
 unmappable file yields 404 with an error page, no descriptor left open, and a cleanup that releases nothing.""",
 ["inputs", "fault_sequences"], "every file size, every path shape and every failing system call (stat, open, mmap)",
 "no test serves a file",
 ["src/grengine.c"], [("mmap_file_ol / m38_mmap_file", "src/grengine.c:mmap_file_ol"), ("guess_mimetype, mimetype_mapping", "src/grengine.c"), ("m38_mmap_cleanup", "src/grengine.c")],
 (), ["response record and system calls"])

prop("H15", "Custom headers are copied and reported faithfully",
 """Adding a custom header to a response returns 1, copies name and value (later changes to the caller's buffers have no effect), and the
 full response then contains 'name: value' lines for all added headers, in the order added, whatever their number and lengths (a line of up to 4 MiB). With a missing name, value or response the call returns 0 and adds nothing.""",
 ["inputs", "histories"], "any number of headers with any name and value lengths",
 "no test adds a header",
 ["src/grengine.c", "src/vector.c"], [("m38_insert_custom_header", "src/grengine.c:m38_insert_custom_header"), ("header emission in m38_generate_response", "src/grengine.c")],
 (), ["return value and response bytes"])

prop("H16", "Custom 404 handler and cleanup registration composes in any order",
 """After any sequence of registrations of a 404 handler and a 404 cleanup on an application, the application's 404 route has the most recently registered handler and the most
 recently registered cleanup (none if never registered), every call reports success, and unmatched requests use them.""",
 ["histories"], "every sequence of registration calls within the bound",
 "no test registers a 404 handler",
 ["src/server.c"], [("m38_set_404_handler, m38_set_404_cleanup", "src/server.c")], (), ["app's 404 route; which handler and cleanup run"])

prop("H17", "Serving a rendered template file equals rendering its content",
 """Rendering a template file yields status 200 and exactly the text that rendering the file's bytes gives, for every file size including exact multiples of the page size, and
 the context is consumed. If the file cannot be served the result is the 404 of a missing file and the context is consumed as well; nothing leaks and no mapping stays behind.""",
 ["inputs", "fault_sequences"], "every template file size and every failing system call",
 "no test renders a file through the response path",
 ["src/grengine.c", "src/greshunkel.c"], [("m38_render_file", "src/grengine.c:m38_render_file")], (), ["response record"])

prop("H18", "A whole request is never waited for, an endless one is not taken in",
 """Once the bytes that have arrived on a connection hold a whole request (a header block with its blank line and as many body bytes as its Content-Length says, together or with the whole body after
 the header block), it is answered or refused without waiting for more bytes or for the client to close, wherever the reads of the socket end; and all of it, up to 2 MiB, reaches the handler.
 Of a client that never stops sending, no more than 2 MiB and one further read are taken in for the request, and as much again for a body sent by itself.""",
 ["inputs", "histories"], "every size of header block and body, in particular around the multiples of what one read takes in, and every way the bytes arrive",
 "no test reads from a connection; waiting for nothing shows only with a client that keeps its connection open",
 ["src/grengine.c"], [("read_max_bytes_from_socket, attempt_reread_from_socket", "src/grengine.c"), ("MAX_REQUEST_SIZE, MAX_READ_LEN", "include/grengine.h")], (),
 ["reads of the connection, request record inside a handler"])

prop("H19", "Every answered request is logged in one line, which clients cannot forge",
 """Every request that is answered is logged in exactly one line reading ADDRESS "METHOD PATH" STATUS SIZE "AGENT", cut to 799 bytes, with the value of X-Real-IP (or NOIP), the method and path as parsed, the status that is sent,
 the size of the whole body (also when a range of it is sent) and the value of User-Agent (or NOUSERAGENT); a refused request gets no such line. Nothing a client sends starts a line of the log or puts a control
 character into it: bytes below 0x20 and 0x7f are written as '?' in that line.""",
 ["inputs", "histories"], "every path, address, agent, size and status, and any bytes anywhere in a request",
 "tests never look at the log",
 ["src/grengine.c", "src/parse.c", "src/logging.c"], [("log_request", "src/grengine.c:log_request"), ("messages about a request's range", "src/parse.c:m38_parse_range_header")], (),
 ["text written to standard output and standard error"])

prop("H20", "Cleanup helpers release exactly what a successful response owns",
 """The heap cleanup helper releases the body, and the file cleanup helper the mapping and its record, exactly when the status is from 200 to 399; otherwise both leave everything alone. The unchecked heap helper releases the body for every status.
 As the cleanup of a route they therefore release everything such a response holds once it has been sent, in whole, as a range or up to a failing send.""",
 ["inputs", "fault_sequences"], "every status code, whole and partial answers, complete and failing sends",
 "no test calls the helpers",
 ["src/grengine.c", "include/grengine.h"], [("m38_heap_cleanup, m38_heap_cleanup_no_check, m38_mmap_cleanup", "src/grengine.c"), ("RESPONSE_OK", "include/grengine.h")], (),
 ["live heap blocks and mappings after the response has been sent"])

# ---------------------------------------------------------------- server
prop("H21", "Running out of memory costs one request, not the server",
 """When any single allocation fails while a request is read, parsed, matched against the routes or answered, the request is either refused (its connection closed, no response) or answered with exactly what its
 handler returned; either way everything it held is released once, the cleanup of the route runs exactly once for a handler's answer, and other connections and later requests are served as usual. Custom headers whose insertion reported success are in
 the answer and others are not; registering a 404 handler or cleanup reports the failure and can be tried again.""",
 ["fault_sequences", "histories"], "every position of the failing allocation, for every kind of request and handler",
 "allocation never fails under test",
 ["src/grengine.c", "src/parse.c", "src/vector.c", "src/server.c"], [("m38_generate_response and its error path", "src/grengine.c"), ("m38_parse_request, m38_parse_form_encoded_body", "src/parse.c"), ("vector_new", "src/vector.c"), ("m38_set_404_handler/_cleanup", "src/server.c")], (),
 ["responses on the wire, live heap blocks, closed descriptors"])

prop("H22", "A handler sees the request that was sent, fields and cookies included",
 """The handler of a request sees the method, path, header block and body its connection delivered; looking up a header or a cookie in it gives the value the client
 sent, or nothing if it sent none. If the Content-Type is application/x-www-form-urlencoded (with or without parameters) the body's fields are there with their decoded values;
 for any other or no Content-Type, and for names that were not submitted, no field is found. Nothing of an earlier request on the same server is seen.""",
 ["inputs", "histories"], "every request with any path, headers, content type and body, the body with the header block or after it, after any earlier requests",
 "no test lets a handler look at its request; the unit tests call single parsing functions",
 ["src/grengine.c", "src/parse.c"], [("m38_generate_response: reading, parsing and the form body", "src/grengine.c:m38_generate_response"), ("m38_parse_form_encoded_body, m38_get_header_value_request", "src/parse.c")], (),
 ["the m38_http_request a handler is given"])

prop("S01", "Every accepted connection is answered or closed, never lost or duplicated",
 """Every connection the server accepts is handed to exactly one worker or closed; every connection a worker takes is either answered through exactly
 one complete pass of sending or closed, also when parsing fails or a queue operation fails. The sending side never waits for room in the queue that only it drains.""",
 ["schedules", "fault_sequences"], "every interleaving abstracted as arbitrary queue contents and fullness, and every failure of accept and the queue operations",
 "no test starts the server",
 ["src/server.c", "src/grengine.c"], [("acceptor, handler, responder loops", "src/server.c")], (),
 ["accept, mq_send, mq_receive, close and the request-processing calls made by each thread"])

prop("S02", "Server start-up reports failure and gives every worker valid arguments",
 """Starting the server reports -1 if the socket, binding, listening, either queue or any thread cannot be set up, and otherwise starts one acceptor, one responder
 and exactly the configured number of workers, each of which sees the application and its own index no matter when it is first scheduled. Stale queues of an earlier run are discarded before new ones are created, and the listening socket is closed before returning.""",
 ["schedules", "fault_sequences"], "every failing system call and every delay between starting a worker and its first step",
 "no test starts the server",
 ["src/server.c"], [("m38_http_serve, create_socket, _open_queue", "src/server.c")], (), ["system calls, thread starts, return value"])

prop("S03", "Work done in different threads at the same time does not interfere",
 """Requests handled at the same time by different workers, and templates rendered or other library functions used on separate data at the same time by different threads, do not affect each other:
 no memory that one thread writes is read or written by another without a queue hand-over, a thread start or join, or a lock ordering the two accesses (log lines included),
 and each response and rendering is the one the same request or template gets when nothing else runs.""",
 ["schedules", "inputs"], "every pair of requests or uses and every interleaving of the threads that carry them out",
 "no test runs two threads; a race shows only under a particular interleaving and its effect may be a rare wrong byte",
 ["src/server.c", "src/grengine.c", "src/greshunkel.c", "src/parse.c", "src/logging.c"], [("handler, m38_generate_response", "src/server.c"), ("gshkl_render", "src/greshunkel.c"), ("m38_log_msg", "src/logging.c")], (),
 ["memory accesses of concurrently running threads, response and rendering bytes"])

prop("S04", "Connections are taken up in order and waiting responses take turns",
 """Connections are handed to the workers in the order they were accepted. The sending side sends at most 4096 bytes of a response before it turns to the next
 waiting one, so between two pieces of one response every other waiting response gets a piece (a response may go on without a break only while the queue of waiting responses has no room for it).
 Hence a large response does not keep the responses behind it waiting until it is done.""",
 ["schedules", "inputs"], "every number and size of waiting responses, every moment at which the queue is full, and every schedule of workers, acceptor and responder",
 "no test starts the server; order and turns show only with several connections in flight at once",
 ["src/server.c", "src/grengine.c"], [("acceptor and responder loops, priorities in the two queues", "src/server.c"), ("m38_send_response piece size", "src/grengine.c")], (),
 ["order in which workers take connections and in which pieces are sent"])

prop("S05", "No client and no passing fault stops the server",
 """After an accept that fails because the client has gone away, a signal arrived, or descriptors or memory were momentarily short, and after a wait for work interrupted by a signal,
 the server goes on: every connection that arrives later is accepted and, once a worker is free to take it, answered or closed, whatever requests earlier clients sent and however their sending or receiving ended.""",
 ["schedules", "fault_sequences"], "every passing failure of accept, every interrupted wait, and every order of good and bad clients within the bound",
 "no test starts the server, and none injects a failing accept or an interrupted wait",
 ["src/server.c", "src/grengine.c"], [("acceptor, handler, responder loops: which failures end them", "src/server.c")], (),
 ["which connections are accepted, answered and closed after the fault"])

# ---------------------------------------------------------------- data structures
prop("D01", "Vectors behave as growable arrays",
 """After any sequence of appends, reading index i below the number of items gives the i-th appended item's bytes, reading any index from the count on gives nothing,
 and reversing gives exactly the items in opposite order. Appending an item larger than the element size is refused without effect, and no initial capacity (including zero) or item size makes any operation touch memory outside the vector.""",
 ["inputs", "histories"], "every element size, initial capacity and sequence of append/append-pointer/get/reverse",
 "tests use one element size and never read past the end or start from capacity 0; the reverse test's checking loop never runs",
 ["src/vector.c"], [("vector_append, vector_append_ptr growth", "src/vector.c"), ("vector_get bound", "src/vector.c"), ("vector_reverse", "src/vector.c")],
 [("count/max_size/items", "vector representation", "include/vector.h")], ["vector_get results, return values"])

prop("D02", "Sparse arrays store and return per-index values",
 """In a sparse array of a given maximum, setting an index below the maximum with a value no larger than the element size makes exactly that index read back that value and size and leaves every other index as it was;
 indices never set (or set to a zero-sized value) read as empty. Indices at or beyond the maximum and oversized values are refused without effect.""",
 ["inputs", "histories"], "every maximum, index order, value and overwriting sequence within the bound",
 "no unit test touches sparse arrays directly",
 ["src/simple_sparsehash.c"], [("bitmap/popcount offset mapping, group growth", "src/simple_sparsehash.c:_sparse_array_group_set"), ("sparse_array_set/get bounds", "src/simple_sparsehash.c")],
 [("bitmap/count/group", "group occupancy", "include/simple_sparsehash.h")], ["sparse_array_get"])

prop("D03", "The dictionary is a map: last write wins, nothing is lost or invented",
 """After any sequence of sets, getting a key returns the value and size most recently stored under exactly those key bytes, and getting any other key returns nothing,
 across collisions, overwriting and table growth. Setting never fails for lack of room and copies key and value (even when the bytes given are the ones the dictionary returned), and freeing releases everything exactly once.""",
 ["inputs", "histories"], "every sequence of keys (any bytes, any length) and values, including colliding keys and more keys than the initial table holds",
 "the only test stores two keys once each",
 ["src/simple_sparsehash.c"], [("sparse_dict_set/get probing, _rehash_and_grow_table, sparse_dict_free", "src/simple_sparsehash.c")],
 [("buckets/bucket_count/bucket_max", "hash table", "include/simple_sparsehash.h")], ["sparse_dict_get"])

prop("D04", "The string hash is FNV-1a for every input length",
 """Hashing a byte string of any length terminates and writes the upper-case hexadecimal 64-bit FNV-1a hash of exactly those bytes, NUL-terminated, into the caller's buffer, and returns 1.""",
 ["inputs"], "every byte string, including empty ones and ones longer than 255 bytes",
 "no test calls the hash", ["src/utils.c"], [("hash_string_fnv1a", "src/utils.c:hash_string_fnv1a")], (), ["output buffer"])

prop("D05", "Bounded substring search and suffix test agree with their definitions",
 """Bounded search returns the first position at which the needle occurs wholly inside the first n bytes of the (possibly shorter, NUL-terminated) haystack, the haystack itself for
 an empty needle, and nothing otherwise. The suffix test is true exactly when the string ends with the suffix.""",
 ["inputs"], "all strings and bounds", "no test calls them directly",
 ["src/utils.c"], [("strnstr", "src/utils.c:strnstr"), ("endswith", "src/utils.c:endswith")], (), ["return values"])

prop("D06", "Containers survive allocation failure",
 """When any single allocation fails while creating or growing a vector, or creating or writing to a sparse array or dictionary, the call reports failure (creating: NULL, nothing is left behind), everything stored before is still readable unchanged, later operations
 (including freeing) work, and no memory is touched outside the container or freed twice.""",
 ["fault_sequences", "histories"], "every position of the failing allocation in every sequence of operations within the bound",
 "allocation never fails under test",
 ["src/vector.c", "src/simple_sparsehash.c"], [("realloc handling in vector_append*", "src/vector.c"), ("error paths of sparse_array_set/sparse_dict_set/_rehash_and_grow_table", "src/simple_sparsehash.c")], (), ["return values and later reads"])

prop("D07", "File size and date are those of the file",
 """The size and date helpers return the size in bytes and the time of the last change of the file that the path names, whatever they are, and 0 if it cannot be examined; nothing stays open.""",
 ["inputs"], "every size and date, existing and missing files of every kind", "no test calls them",
 ["src/utils.c"], [("get_file_size, get_file_creation_date", "src/utils.c")], (), ["return values"])

# ---------------------------------------------------------------- templates
prop("T01", "Variables are replaced by exactly their value, other text is untouched",
 """Rendering copies text that is not template markup byte for byte and replaces every 'xXx @name xXx' by the full value of the variable of that name and
 every 'xXx @sub.name xXx' by that member of the sub-context, however many occur on a line and however the text is split into lines (markup-free values). Blanks and empty lines directly in front of a LOOP or UNLESS marker and blanks in front of a SCREAM marker belong to the marker.""",
 ["inputs"], "every template of text and variable references, every name and every markup-free value up to 512 bytes",
 "tests render a handful of fixed documents with short values",
 ["src/greshunkel.c"], [("_interpolate_line, _interpolate_line_subcontext, vishnu, read_line, gshkl_render", "src/greshunkel.c")], (), ["rendered text"])

prop("T02", "Contexts keep names and values intact and resolve names by scope",
 """A string added to a context is kept up to 512 bytes (longer ones are cut there), an integer is kept as its decimal text, and names are kept up to 31 bytes, without touching memory outside the
 entry. Looking a name up finds the first entry added with exactly that name in the innermost context that has one, then in its enclosing contexts; a name that is a prefix or extension of another never matches it.""",
 ["inputs"], "every name and value length, every integer, and every order of additions within the bound",
 "tests use short names and values, and one pair of names where one is a prefix of the other",
 ["src/greshunkel.c", "include/greshunkel.h"], [("gshkl_add_string/_int/_array/_sub_context/_filter", "src/greshunkel.c"), ("find_needle", "src/greshunkel.c")], (), ["rendered text"])

prop("T03", "Loops render their body once per item, in order",
 """A LOOP block renders its body once for each item of the array, in order, with the loop variable bound to that item (string, integer or sub-context) and all outer variables visible; an empty
 array renders nothing. The text after the block's end marker continues exactly where the block ended, also when several loops follow each other.""",
 ["inputs"], "every number and kind of items, every body within the bound, consecutive loops",
 "tests loop over fixed six- and three-element arrays", ["src/greshunkel.c"], [("_interpolate_loop", "src/greshunkel.c:_interpolate_loop")], (), ["rendered text"])

prop("T04", "UNLESS and UNLESS NOT are exact opposites with the documented truth values",
 """For every plain (undotted) variable name, exactly one of UNLESS and UNLESS NOT renders its body: UNLESS renders it when the variable is unset, an empty string, the string FALSE or an empty
 array, and UNLESS NOT when it is any other string, a non-empty array or a sub-context. The body is rendered as template text, and text after the block continues exactly where it ended.""",
 ["inputs"], "every state and value of the variable and every body within the bound, consecutive blocks",
 "tests cover an unset variable, 'TRUE' and 'FALSE' only",
 ["src/greshunkel.c", "docs/Greshunkel/04_Conditionals.markdown"], [("_interpolate_conditionals, _is_truthy, _is_falsey", "src/greshunkel.c")], (), ["rendered text"])

prop("T05", "Filters receive their exact argument and their result replaces the call",
 """'XxX name argument XxX' calls the filter of exactly that name once with the argument text (after variables in it were replaced) and puts its result in the call's place;
 'XxX name XxX' calls it without argument. The filter's clean-up, if any, runs exactly once on that result after it was used, and surrounding text is unchanged.""",
 ["inputs"], "every argument, result and surrounding text within the bound, several calls on one line",
 "tests use filters that ignore their argument and have no clean-up", ["src/greshunkel.c"], [("_filter_line", "src/greshunkel.c:_filter_line")], (), ["filter and clean-up calls, rendered text"])

prop("T06", "Includes are replaced by the rendered content of the included file",
 """A line 'xXx SCREAM file xXx' is replaced by the result of rendering that file's text (up to the include size limit of 2047 bytes) in the including context, files of any size are
 read without touching memory outside the include buffer, and the file is closed again.""",
 ["inputs"], "every file content and size, including empty and larger than the limit",
 "one fixed include file", ["src/greshunkel.c"], [("_include_line", "src/greshunkel.c:_include_line")], (), ["rendered text, file operations"])

prop("T07", "Rendering does not consume its context and leaks nothing",
 """Rendering leaves the context as it was, so rendering again (or looping twice over the same array) gives the same text, and after freeing the result and the context
 every block has been freed exactly once, sub-contexts inside arrays included.""",
 ["inputs", "histories"], "every combination of template constructs within the bound, rendered repeatedly",
 "tests render each context once and never check for leaks", ["src/greshunkel.c"], [("gshkl_render, _interpolate_* ownership", "src/greshunkel.c"), ("gshkl_free_context", "src/greshunkel.c")], (), ["rendered text, allocator calls"])

prop("T08", "The reported size of a rendering is the size of its text",
 """The text returned by rendering is NUL-terminated and the reported size equals its length except that one final newline of a template (at the end of its last plain line) is not counted; this holds for empty templates, templates
 that produce no output and templates that end with a block, and the rendering never reads beyond the given template size and its terminator.""",
 ["inputs"], "every template within the bound, in particular empty ones and those ending in a block or newline",
 "tests ignore the reported size", ["src/greshunkel.c"], [("gshkl_render size bookkeeping, read_line", "src/greshunkel.c")], (), ["outsize and rendered text"])

# ---------------------------------------------------------------- misc
prop("T09", "A context that cannot grow says so and keeps what it has",
 """When any single allocation fails while values, sub-contexts, filters, arrays or items of arrays are added to a context (after its creation), that addition returns non-zero (an array that could not be made takes
 no items), everything added before and after is there when rendering, a refused sub-context stays with the caller, and freeing the context releases everything once.""",
 ["fault_sequences", "histories"], "every position of the failing allocation, for every kind of entry and every size at which a context grows",
 "allocation never fails under test",
 ["src/greshunkel.c", "src/vector.c"], [("gshkl_add_*", "src/greshunkel.c"), ("vector_append, vector_new", "src/vector.c")], (), ["return values, rendered text, live heap blocks"])

prop("T10", "Constructs of a template do not influence each other",
 """A template in which text, variables, filters, LOOP and UNLESS blocks and includes follow each other renders to their renderings one after another, however many
 there are and whichever stand on one line (blocks at the beginning of a line or directly behind a block; blanks and empty lines directly in front of one belong to it). The body of a LOOP or UNLESS block, a LOOP in an UNLESS body or the other
 way round, and an included file render as the same text would where they stand.""",
 ["inputs", "histories"], "every sequence and nesting of constructs within the bound, for every value of the variables",
 "the tests render nine fixed templates; which construct stands next to or inside which is not varied",
 ["src/greshunkel.c"], [("gshkl_render main loop, _interpolate_loop, _interpolate_conditionals, _interpolate_line", "src/greshunkel.c")], (),
 ["the rendered text"])

prop("L01", "Log messages of any length are bounded and routed by level",
 """Logging a message of any length and level writes exactly one line, consisting of a timestamp, the level's marker and the message cut to 799 bytes, to standard
 error for errors and to standard output otherwise, without writing outside its buffers. When several threads log at the same time, each message is still one unbroken line with its own text.""",
 ["inputs", "schedules"], "every level and every message length, and two threads logging in every order of their output calls", "tests log short constant messages and check nothing",
 ["src/logging.c"], [("m38_log_msg", "src/logging.c:m38_log_msg")], (), ["text handed to the stream"])

prop("B01", "The Python binding renders the whole template",
 """Rendering through the Python binding gives the same text as rendering the template's UTF-8 bytes through the C interface, for every template and context text including non-ASCII characters.""",
 ["inputs"], "every Python string used as template, name or value", "the Python test renders one ASCII template and asserts nothing",
 ["python/greshunkel.py"], [("Template.render, _add_item_to_greshunkel_context", "python/greshunkel.py")], (), ["rendered text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
