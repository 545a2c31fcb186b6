FRAG = dict(S03NOTE='''In `S03` every memory access of the code under test is also checked against vector clocks (per byte: last write, last read of every
  thread) that only queue hand-overs, thread start/join, locks, `pthread_once` and atomics advance, so a race is reported whatever order the coroutines happened to run in; memory that libc
  functions share behind the caller's back (`strtok`, `localtime`, `ctime`) is part of the model. Such a counterexample is replayed with the thread sanitizer (a fiber per thread, the same
  synchronisation announced to it) and counts only if TSan reports a race between two accesses of the code under test. The happens-before relation is that of the explored schedules: an access ordered by
  accident in all of them (same worker, queue order) is not seen as racing.''', REVERT='', CROSS='',
REFACT='''21 behaviour-preserving refactorings (helpers extracted or inlined, loops rewritten, statements reordered, different library calls, other buffer
growth, other data layouts, early returns turned into nesting and back, in every source file) were applied to scratch copies and all checks of the properties they touch were run:
264 runs, 262 quiet. The two alarms were true: one of the hand-written patches had changed a log marker (L01), the other freed the workers' arguments while a worker that starts
late still reads them (S02). Harnesses therefore use the public interface (and the functions declared in include/) only, never static helpers.''')
ORACLE = {
'H01': 'symbolic execution of m38_parse_request over a connection model that delivers symbolic bytes. Oracle: an independent scan for the two words and the first blank line in the received bytes; success, method, path, header block compared byte for byte.',
'H02': 'symbolic execution of m38_get_header_value_raw on exact-size symbolic texts (any read outside is a violation). Oracle: line-by-line reference scanner in the harness.',
'H03': 'a whole request through m38_parse_request/m38_parse_body with symbolic body bytes, Content-Length and split into reads; the handler-visible body is compared with the delivered bytes.',
'H04': 'm38_parse_request with a form body of symbolic bytes, then lookups of every submitted and of other symbolic names; oracle is a reference splitter and decoder; the raw body must be unchanged.',
'H05': 'm38_urldecode on symbolic strings in exact-size buffers; oracle is a reference decoder.',
'H06': 'm38_get_cookie_value on exact-size symbolic strings; oracle is a reference item scanner.',
'H07': 'm38_parse_range_query on symbolic text with stale errno; oracle does the decimal arithmetic with overflow test in 128 bits.',
'H08': 'a complete pass (parse, route, handler, generate, send) with a symbolic body and captured wire bytes; the oracle rebuilds the expected response field by field.',
'H09': 'as H08 with range requests; content bytes and range numbers are symbolic; the wire is parsed by the harness and compared with the requested slice.',
'H10': 'm38_generate_response over route tables whose expressions, methods and the path are symbolic; oracle: regular expressions of a known set are matched by hand-written predicates, the first match must run with its offsets.',
'H11': 'm38_send_response/handle over a send() model that accepts a symbolic number of bytes or fails at a symbolic moment; the wire must be a prefix, cleanup and close counters are exact.',
'H12': 'complete passes with symbolic choices of handler, request, form, range, outcome of each send; at the end the count of live blocks and open descriptors must equal the count at the start; each connection closed exactly once.',
'H13': 'complete passes with arbitrary bytes in arbitrary splits; decided by the executor\'s memory-safety, initialisation and termination checks plus "complete response or refusal".',
'H14': 'm38_mmap_file and its cleanup over the file model (symbolic size class, contents, failures); oracle: reference extension table, bytes and descriptor/mapping counters.',
'H15': 'm38_insert_custom_header with symbolic names and values (buffers overwritten afterwards), then the full response is parsed.',
'H16': 'all sequences of the two registration calls chosen by symbolic variables, then unmatched requests.',
'H17': 'm38_render_file over the file model, compared with gshkl_render of the same bytes in the same run.',
'H22': 'm38_generate_response with a scripted connection; the handler compares everything it is given with what the harness put on the wire, fields with a URL decoder written for the check, and looks up names that were not sent.',
'H21': 'm38_generate_response, m38_send_response and the whole server with the allocator of the engine refusing the f-th request for memory (regcomp counts as one), f picked; the response on the wire is compared with what the handler returned, sym_live() with its value before.',
'T09': 'gshkl_add_* with the f-th allocation refused; what was accepted is rendered and compared, freeing must bring sym_live() back.',
'H18': 'm38_generate_response over the socket model with the connection left open after the last byte: a read that would wait is a violation; counters bound what is taken in; body bytes are symbolic at the read boundaries.',
'H19': 'm38_generate_response with the real m38_log_msg and printf family encoded, the text of both streams captured; the expected line is built from the symbolic request, every captured byte is checked.',
'H20': 'the three helpers with a symbolic 32-bit status, and as route cleanups; live blocks and mappings counted.',
'S01': 'm38_http_serve with all its threads as coroutines over the queue, socket and thread models; the failing operation, full moments, switch points are symbolic variables; counters per connection decide "exactly one".',
'S02': 'm38_http_serve with a symbolic failing step and a symbolic moment at which threads are first scheduled; each worker reports its application and index.',
'S03': 'two or three workers (and two threads using the library directly) with every access of the code under test checked for happens-before ordering; separately, the bytes of a response/rendering against those of the same request/template alone, with a symbolic switch point.',
'S04': 'm38_http_serve over the same models, recording the order of taking and of each piece sent; sizes, fullness and switch points symbolic; the recorded order is compared with the accept order and the queue order.',
'S05': 'm38_http_serve with symbolic errno values for accept and the queue waits and symbolic client behaviour before them; every connection delivered afterwards must be accepted and answered or closed.',
'D01': 'vector operations against a reference array in the harness, symbolic items and indices.',
'D02': 'sparse array operations against a reference table; indices are symbolic 32-bit values.',
'D03': 'dictionary operations against a reference map; keys, values and histories symbolic; collisions constructed from FNV-1a.',
'D04': 'sph_fnv1a over symbolic bytes against a reference FNV-1a.',
'D05': 'the search and suffix functions against their definitions; unterminated exact-size buffers.',
'D06': 'histories in which a symbolic k-th allocation fails; afterwards contents are compared with the reference, all is freed, nothing is live.',
'D07': 'the two functions over the file model with symbolic size and date.',
'T01': 'templates built from symbolic pieces with the expected text built alongside (harness/tmpl.h); rendered text and size compared.',
'T02': 'contexts with symbolic names and values; what each lookup yields is observed by rendering.',
'T03': 'LOOP templates over arrays of symbolic kinds and values; expected text built alongside.',
'T04': 'UNLESS/UNLESS NOT over every kind of variable and arbitrary strings; expected text from the documented truth values.',
'T05': 'filters that record their argument and count calls and clean-ups; arguments and results symbolic.',
'T06': 'SCREAM over the file model with symbolic contents and sizes; compared with the rendering of the file text; streams counted.',
'T07': 'the same context rendered three times; texts equal, live blocks at the end equal the start.',
'T08': 'rendered size against strlen, templates in exact-size buffers (terminator included).',
'T10': 'gshkl_render on templates assembled from 16 constructs whose rendering is known; expected is the concatenation of the known renderings, at the top level, in the bodies of blocks and in an included file.',
'L01': 'm38_log_msg with the real logging code over captured streams; expected line built alongside (time stamp skipped by format). Two threads: the second message is logged at any one of the stream and clock calls of the first (a held stream lock keeps it out); both lines must come out whole.',
'B01': 'symbolic execution of python/greshunkel.py (see section 1) with symbolic template, keys, values and results.',
}
