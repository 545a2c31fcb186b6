"""What decides each property: the harness runs, their bounds and what they must reach."""
TECHNIQUE = 'symbolic execution of the compiled code (LLVM IR), every branch, address and assertion decided by z3'
NOTES = 'see DESIGN.md'
ASSUMPTIONS = []
NOT_APPLICABLE = {}
CHECKS = {}
def R(name, h, bounds, arg=0, **kw): return dict(name=name, h=h, bounds=bounds, arg=arg, **kw)


CHECKS['D01'] = dict(note='element sizes, capacities and lengths up to 70 items enumerated; item bytes arbitrary; 4097 items; items of 140000 bytes', reach=['history', 'large', 'array', 'mixed', 'many', 'reverse'], runs=[
  R('array', 'd01.c', 'element sizes 1,4,8,24,40 x capacities 0..3 x 0..7 items of arbitrary bytes; arbitrary 32-bit read index; oversized append; reverse', 0),
  R('mixed', 'd01.c', '1..4 operations (full, short, NULL, oversized item, pointer) in any order, capacities 0..2', 1),
  R('many', 'd01.c', '70 appends (items and pointers) from capacities 0,1,2,4,8,16,32,33, reverse', 2),
  R('reverse', 'd01.c', 'element sizes 1..8 x 0..9 items', 3), R('large', 'bigd.c', '128..4097 items', 0, max_insts=400000000), R('wide', 'bigd.c', 'items of 4096..140000 bytes', 1, max_insts=400000000), R('history','hist.c','three vectors in turn, 300 items, vectors freed and made again',18, max_insts=400000000)])
CHECKS['D02'] = dict(note='arbitrary 32-bit indices against six maxima (two arbitrary writes in the thorough tier), all boundary orders of three writes, filled arrays; indices to 2999999', reach=['history', 'large', 'array', 'boundaries', 'full', 'oversized', 'out of range', 'found', 'empty'], runs=[
  R('array', 'd02.c', 'maxima 1,32,47,48,49,97; one write (thorough: two) at an arbitrary 32-bit index, sizes 0,5,12; read of an arbitrary 32-bit index', 0),
  R('boundaries', 'd02.c', 'every order of three writes to 14 indices around the 32-bit chunk and 48-slot group boundaries, all indices read back', 1),
  R('full', 'd02.c', 'maxima 32..50 filled in four orders, one overwritten, all indices read back', 2),
  R('oversized', 'd02.c', 'oversized value at an arbitrary index 0..60 after a write to an arbitrary index', 3),
  R('range', 'd02.c', 'arbitrary 32-bit index at or beyond 13 maxima', 4), R('far', 'bigd.c', 'pairs of 18 indices up to 2999999', 2, max_insts=400000000), R('wide', 'bigd.c', 'values of 4096..140000 bytes', 3, max_insts=400000000), R('history','hist.c','two tables in turn, 300 writes, tables freed and made again',19, max_insts=400000000)])
CHECKS['D03'] = dict(note='arbitrary one-byte keys, colliding, growing, prefix, NUL-containing, long and equal-hash keys; 3000 keys; 140000 bytes', reach=['history', 'large', 'own values', 'arbitrary keys', 'collisions', 'growth', 'odd keys', 'long keys', 'same hash', 'histories', 'present', 'absent'], runs=[
  R('arbitrary', 'd03.c', 'one arbitrary one-byte key and an arbitrary lookup; two keys from 8 letters (thorough: three)', 0, ttime=1200),
  R('collisions', 'd03.c', '11..21 keys that share a slot of a 32- or 64-slot table, overwrites of two of them', 1),
  R('growth', 'd03.c', '24..110 keys (two growth steps), overwriting before/after growth, values arbitrary', 2),
  R('odd', 'd03.c', 'every pair from 13 keys (empty, prefixes, NUL-containing, high bytes) x value sizes 0..512', 3),
  R('long', 'd03.c', 'keys of 31..512 bytes differing in one byte or in length', 4),
  R('samehash', 'd03.c', 'two pairs of different keys with equal 64-bit hash, one of them alike up to a NUL byte', 5),
  R('histories', 'd03.c', 'every history of 1..4 sets over four keys and two value sizes', 6), R('own', 'd03.c', 'value bytes the dictionary returned stored again under the same key, another key, as a key; 8 sizes around growth', 7), R('many', 'bigd.c', '129..3000 keys, overwriting while and after growing', 4, max_insts=400000000), R('large', 'bigd.c', 'keys or values of 4096..140000 bytes', 5, max_insts=400000000), R('history','hist.c','two tables in turn, 300 writes, tables freed and made again',19, max_insts=400000000)])
CHECKS['D04'] = dict(note='every string of up to 3 bytes; eleven lengths up to 65536 with an arbitrary last byte; 1048577 bytes', reach=['history', 'large', 'hash', 'long'], runs=[
  R('short', 'd04.c', 'every byte string of 0..3 bytes', 0), R('long', 'd04.c', 'lengths 16,31,32,33,255,256,257,300,512,1024,65536 with an arbitrary last byte', 1), R('large', 'bigd.c', '11 lengths to 1048577, arbitrary last byte', 6, max_insts=400000000), R('history','hist.c','1200 hashes of up to 40 bytes of the same buffer',6, max_insts=400000000)])
CHECKS['D05'] = dict(note='all haystacks up to 5 and needles up to 3 bytes; wide haystacks and needles with arbitrary bytes at the interesting places; strings to 1048577 bytes', reach=['history', 'large', 'found', 'found at the end', 'absent', 'suffix', 'long suffix'], runs=[
  R('small', 'd05.c', 'every unterminated haystack of 0..5 bytes, every needle of 0..3 bytes', 0),
  R('terminated', 'd05.c', 'every terminated haystack of up to 4 bytes, 13 length limits up to 2^32-1', 1),
  R('wide', 'd05.c', 'haystacks of 255..1100 bytes with an arbitrary byte near the end, arbitrary two-byte needle', 2),
  R('suffix', 'd05.c', 'every pair of strings of up to 4 bytes', 3),
  R('longneedle', 'd05.c', 'needles of 254..258 bytes', 4), R('longsuffix', 'd05.c', 'suffixes of 255..513 bytes with one arbitrary byte', 5), R('large', 'bigd.c', 'haystacks and strings of 4096..1048577 bytes, needles and suffixes to half or all of it', 7, max_insts=400000000), R('history','hist.c','1200 searches in the same buffers',7, max_insts=400000000)])
CHECKS['D07'] = dict(note='every 63-bit size and 64-bit date, four kinds of file, present or not', reach=['history', 'file', 'no file'], runs=[R('stat', 'd05.c', 'every size below 2^63, every 64-bit date, four kinds of file, openable or not, present or not', 20), R('history','hist.c','300 changes of the size, date and presence of two files',8, max_insts=400000000)])
CHECKS['D06'] = dict(note='every single failing allocation in bounded histories of each container', reach=['growth refused', 'reverse refused', 'array set refused', 'dict set refused', 'creation refused'], runs=[
  R('creation', 'd03.c', 'vectors, arrays and dictionaries, every failing allocation', 21),
  R('vector', 'd01.c', 'capacities 1..4, 1..9 appends (items or pointers) and a reverse, every failing allocation', 10),
  R('array', 'd02.c', '7 writes across two groups, every failing allocation', 10),
  R('dict', 'd03.c', '30 sets with overwrites and growth, every failing allocation', 20)])

CHECKS['H05'] = dict(note='every string up to 7 bytes (thorough 9), every escape, long inputs with arbitrary bytes at the end; 140000 bytes', reach=['history', 'large', 'rejected', 'decoded', 'escape', 'long'], runs=[
  R('short', 'h05.c', 'every string of 0..7 bytes (thorough: 0..9)', 0),
  R('escapes', 'h05.c', 'every two-digit escape in either case', 1),
  R('long', 'h05.c', '12 lengths 31..2000, plain, with plus signs, with escapes; arbitrary bytes in the middle or at the end', 2), R('large', 'bigd.c', '4096..140000 bytes, plain, escapes, plus signs', 10, max_insts=400000000), R('history','hist.c','1200 decodings in the same buffer',3, max_insts=400000000)])
CHECKS['H06'] = dict(note='every header value up to 8 bytes (thorough 10) and name up to 2 bytes; item lists; long names and values; 1000 cookies, 140000 bytes', reach=['history', 'large', 'found', 'absent', 'items', 'long'], runs=[
  R('short', 'h06.c', 'every header value of 0..8 (thorough 10) bytes without control blanks, every name of 1..2 bytes', 0),
  R('items', 'h06.c', 'every list of 1..3 of 11 items that embed the name in other names and values, three separators', 1),
  R('long', 'h06.c', '16 value lengths up to 1500 x 13 name lengths up to 513, arbitrary last value byte', 2),
  R('none', 'h06.c', 'no header', 3), R('large', 'bigd.c', '49..1000 cookies, 4096..140000 bytes in front of, in the value, in the name', 11, max_insts=400000000), R('history','hist.c','1200 cookie headers in the same buffer, five names each',4, max_insts=400000000)])
CHECKS['H07'] = dict(note='every pair of numbers up to 3 digits; 23x24 numbers around the integer limits; arbitrary last digits at LONG_MAX; malformed values', reach=['history', 'first too large', 'open', 'no limit', 'closed', 'limits', 'malformed', 'anything'], runs=[
  R('short', 'h07.c', 'A of 1..3 and B of 0..3 arbitrary digits', 0),
  R('limits', 'h07.c', 'all pairs of 23 numbers around the limits of 16/32/53/63/64/128 bits, with stale ERANGE', 1),
  R('long', 'h07.c', '19-digit numbers around LONG_MAX with arbitrary last digits', 2),
  R('malformed', 'h07.c', 'every string of 0..8 bytes that does not start with bytes=; bytes= and 0..4 bytes without -', 3),
  R('anything', 'h07.c', 'bytes= followed by 0..4 arbitrary bytes', 4), R('history','hist.c','1200 range headers in the same buffer',5, max_insts=400000000)])

CHECKS['H01'] = dict(note='every request up to 9 bytes (thorough 11), every tail behind a normal request line, 19x13 word lengths, blank line at every offset around the received end; header blocks to 140000 bytes', reach=['history', 'large', 'refused', 'accepted', 'tail', 'long words', 'edge', 'body', 'behind'], runs=[
  R('short', 'h01.c', 'every request of 0..9 (thorough 11) bytes without NUL in the request line', 0),
  R('tail', 'h01.c', 'GET /a HTTP/1.1 followed by 0..7 (thorough 8) arbitrary bytes', 1),
  R('words', 'h01.c', 'methods of 0..18 bytes x 13 path lengths 0..1000, four continuations', 2),
  R('edge', 'h01.c', '16 header lengths 30..4000, four arbitrary bytes at the end of which 0..5 were received', 3),
  R('body', 'h01.c', '0..5 arbitrary bytes behind the blank line', 4),
  R('behind', 'h01.c', 'words and blank line only behind the received bytes', 5), R('large', 'bigd.c', 'header blocks of 4096..140000 bytes, 0, 5 or 70000 bytes behind', 8, max_insts=400000000), R('history','hist.c','1200 requests one after another in the same buffer',0, max_insts=400000000)])
CHECKS['H02'] = dict(note='every text up to 8 bytes (thorough 10) behind a request line, every name of 1..2 bytes; header lists; long names and values; 3000 lines, 140000 bytes', reach=['history', 'large', 'found', 'absent', 'lists', 'long', 'nul'], runs=[
  R('short', 'h02.c', 'every text of 0..8 (thorough 10) bytes without NUL, every name of 1..2 graphic bytes, terminated or not', 0),
  R('lists', 'h02.c', 'every list of 0..3 of 12 lines that embed the name, three paths, complete or cut', 1),
  R('long', 'h02.c', '10 name lengths up to 513 x 14 value lengths up to 2000, cut 0..4 bytes short', 2),
  R('nul', 'h02.c', 'every text of 0..8 bytes with NUL bytes (memory safety only)', 3), R('large', 'bigd.c', '63..3000 lines, 4096..140000 bytes in front of, in the value, in the name', 9, max_insts=400000000), R('history','hist.c','1200 request texts in the same buffer, three names each',1, max_insts=400000000)])
CHECKS['H04'] = dict(note='arbitrary values up to 5 bytes, all sequences of 3 of 17 pieces, long names and values, up to 520 fields, bodies up to 250000 bytes', reach=['history', 'field', 'absent', 'pieces', 'long', 'many', 'large'], runs=[
  R('values', 'h04.c', 'one field with an arbitrary value of 0..5 (thorough 6) bytes (further names from a small alphabet), two fields with 0..2 bytes each', 0),
  R('pieces', 'h04.c', 'every sequence of 0..3 (thorough 4) of 17 pieces', 1),
  R('long', 'h04.c', '15x15 name and value lengths up to 1500, escapes, arbitrary last byte', 2),
  R('many', 'h04.c', '10..520 fields, optionally all submitted twice', 3, max_insts=60000000), R('large', 'h04.c', 'a value of 12 lengths 4080..250000 between other fields, first and last byte arbitrary', 4, max_insts=60000000), R('history','hist.c','1200 forms one after another',2, max_insts=400000000)])

CHECKS['H03'] = dict(note='every body up to 5 bytes (thorough 8) against every Content-Length up to 7, in the first or the second read; 17 odd Content-Length values; 18 sizes around the read size; 140000 bytes; 1200 requests one after another', reach=['history', 'large', 'refused', 'unreadable', 'with the header', 'second read', 'no body', 'odd lengths', 'sizes', 'direct'], runs=[
  R('together', 'h03.c', 'every body of 0..5 (thorough 8) bytes with the header block, Content-Length 0..7', 0),
  R('second', 'h03.c', 'every body of 0..5 bytes in the next read, closed or reset instead', 1),
  R('lengths', 'h03.c', '17 Content-Length texts (missing, empty, signs, non-numeric, zeros, beyond 32 and 64 bits) x 0..6 body bytes', 2),
  R('sizes', 'h03.c', '18 sizes 1..4200 x 5 Content-Lengths, first or second read, arbitrary middle and last byte', 3),
  R('direct', 'h03.c', 'm38_parse_body, 0..6 received x 0..7 expected', 4), R('large', 'bigh.c', 'bodies of 4096..140000 bytes with the header block, after it, directly; Content-Length equal, one less, one more', 0, max_insts=400000000), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',3, max_insts=400000000)])
CHECKS['H08'] = dict(note='7 status codes; arbitrary bodies up to 6 bytes; 25 sizes up to 1000000; types of 0..31 bytes; 16777217 bytes; 1200 requests one after another', reach=['history', 'large', 'full response', 'sizes', 'types', 'null body', 'directives'], runs=[
  R('small', 'h08.c', '7 codes, every body of 0..6 bytes', 0), R('sizes', 'h08.c', '7 codes x 25 sizes up to 1000000 with arbitrary first and last byte', 1),
  R('types', 'h08.c', 'types of 0..31 bytes with an arbitrary last byte', 2), R('null', 'h08.c', 'no body', 3), R('directives', 'h08.c', 'printf directives and blank lines in type, headers and body', 4), R('large', 'bigh.c', 'bodies of 65537..16777217 bytes', 1, max_insts=400000000), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',2, max_insts=400000000)])
CHECKS['H15'] = dict(note='0..3 headers of arbitrary short names and values, 0..257 headers, 18x18 lengths up to 3000; 1200 requests one after another; headers of up to 4.1 MB; equal headers', reach=['same headers', 'very long headers', 'history', 'full response', 'custom headers', 'many headers', 'long headers', 'refused'], runs=[
  R('arbitrary', 'h08.c', '0..3 headers with names of 1..2 and values of 0..2 arbitrary bytes, 7 codes', 10), R('many', 'h08.c', '0..14 headers and ten numbers to 257', 11), R('long', 'h08.c', '18 name x 18 value lengths up to 3000, terminated or not, followed by another', 12), R('refused', 'h08.c', 'every combination of missing arguments after 0..2 headers', 13), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',2, max_insts=400000000), R('verylong','h08.c','13 lengths of name or value up to 4100000, two long headers and a short one',14, max_insts=400000000), R('same','h08.c','2..70 headers with equal names, equal values or both in six arrangements',15)])

CHECKS['H09'] = dict(note='contents of 1..6 arbitrary bytes x A 0..7 x B; 20 sizes x 9 A x 14 B; malformed and beyond-integer ranges; every 4-byte range text; 2500000 bytes; totals to 10^13; 1200 requests one after another', reach=['history', 'large', 'inside', 'outside', 'open', 'cut', 'sizes', 'malformed', 'limits', 'anything', 'not partial', 'types'], runs=[
  R('small', 'h09.c', 'contents of 1..6 arbitrary bytes, A 0..7, B 1..8 or open', 0), R('sizes', 'h09.c', '20 sizes up to 100001 x 9 A x 14 B, arbitrary bytes at both ends of content and slice', 1), R('malformed', 'h09.c', '15 malformed ranges', 2), R('limits', 'h09.c', '12 numbers around 31/32/63/64/128 bits as A or B', 3),
  R('anything', 'h09.c', 'bytes= and 0..3 (thorough 4) arbitrary bytes', 4, ttime=1500), R('others', 'h09.c', '7 codes, empty 200', 5), R('types', 'h09.c', 'types of 0..31 bytes', 6), R('large', 'bigh.c', 'bodies of 65537..2500000 bytes, four starts, three ends', 2, max_insts=400000000), R('huge', 'bigh.c', 'responses of 9999999..10^13 bytes at 13 sizes, 1..4 of them at 15 places wanted', 8), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',4, max_insts=400000000)])
CHECKS['H10'] = dict(note='every table of 0..2 (thorough 3) of 8 routes x every path of 1..4 bytes; methods; every 404 configuration; tables of 0..12 routes; paths up to 511 bytes; 300 routes; 1200 requests one after another; two applications', reach=['two applications', 'history', 'large', 'routed', 'unmatched', 'sub-matches', 'method', 'other method', 'own 404', 'custom 404', 'built-in 404', 'long table', 'long path', 'three groups'], runs=[
  R('tables', 'h10.c', 'tables of 0..2 (thorough 3) routes from 8 expressions x 2 methods, every path of 1..4 graphic bytes and line ends', 0, ttime=1500), R('methods', 'h10.c', 'every method of 1..4 bytes and 7 long ones x tables of 1..3 of 8 methods', 1), R('fallback', 'h10.c', '4 application 404 configurations x 5 ways to get there x 404 handler result', 2), R('long', 'h10.c', '0..12 routes with duplicates', 3), R('paths', 'h10.c', '8 path lengths up to 511, dot at 4 positions, arbitrary last byte, 5 expressions', 4), R('groups', 'h10.c', 'three sub-matches', 5), R('large', 'bigh.c', '31..300 routes, the last, last but one, middle or none asked for, five forms of path', 3, max_insts=400000000), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',0, max_insts=400000000), R('apps','h10.c','two applications with their own routes and 404 pages, 2..3 requests of either method in any order, arbitrary path byte',6)])
CHECKS['H11'] = dict(note='three (thorough five) consecutive sends accepting all, 1, half, all-but-one or 2 bytes, or failing either way; constant steps with failure after 0..6 sends; exact multiples of the send size; every two-way split; 2500000 bytes; 1200 requests one after another; responses without a body', reach=['empty', 'history', 'large', 'failed', 'complete', 'steps', 'pages', 'any split', 'exact', 'in turns'], runs=[
  R('decisions', 'h11.c', '7 codes x 5 sizes up to 8100 x three (thorough five) sends with 7 outcomes each', 0, ttime=1500), R('steps', 'h11.c', '8 step sizes x 4 sizes, failing after 0..6 sends or never, full and partial', 1), R('pages', 'h11.c', 'response lengths around 1..3 multiples of the send size', 2), R('splits', 'h11.c', 'every number of accepted bytes in two rounds', 3), R('exact', 'h11.c', 'response lengths of exactly 1..2 send sizes, one more, one less', 4), R('turns', 'h11.c', 'two responses sent in any alternation', 5), R('large', 'bigh.c', 'responses of 65537..2500000 bytes, whole or short sends', 4, max_insts=400000000), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',6, max_insts=400000000), R('empty','h11.c','responses without a body, six codes, whole or 1..100-byte sends, failing after 0..3 sends or never',6)])
CHECKS['H12'] = dict(note='13 handler kinds x 18 requests x 404 configuration x send outcomes x end of connection; late, large and arbitrary requests; several connections; 1200 requests one after another', reach=['history', 'answered', 'refused', 'late body', 'large', 'several', 'arbitrary'], runs=[
  R('kinds', 'h12.c', '15 handlers x 18 requests x custom 404 or not x 8 send behaviours x closed or reset', 0), R('late', 'h12.c', '3 header blocks x 6 bodies in the second read, closed or reset, 7 handlers, 3 send behaviours', 1), R('large', 'h12.c', '9 sizes 900..5000 of one header, many headers, form and plain bodies', 2), R('several', 'h12.c', '2..3 connections of 6 requests, 15 handlers, 1..2 workers, 3 send behaviours', 3), R('arbitrary', 'h12.c', '0..3 arbitrary bytes at five places of the request', 4), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',1, max_insts=400000000)])
CHECKS['H13'] = dict(note='every request of up to 9 (thorough 10) bytes through the whole server; arbitrary bytes at ten places; every cut of 17 requests; sizes around the receive size; logging of long values', reach=['any', 'steering', 'split', 'sizes', 'logged', 'many fields', 'answered', 'refused'], runs=[
  R('any', 'h12.c', 'every request of 0..9 (thorough 10) bytes, then closed or reset', 20, ttime=1500), R('steering', 'h12.c', '0..5 (thorough 7) arbitrary bytes at ten places (path, headers, Content-Length, Range, Cookie, form body, Content-Type)', 21, ttime=1500), R('split', 'h12.c', '17 requests cut at every point, the rest in the next read or never, closed or reset', 22), R('sizes', 'h12.c', '20 sizes 1..5000 around the receive size in pieces, arbitrary bytes at the read boundary', 23), R('logged', 'h12.c', 'long values with printf directives, real logging', 24, real_log=1), R('fields', 'h12.c', '0..102 form fields, one or two reads', 25)])
CHECKS['H14'] = dict(note='12 sizes around page multiples, every extension of 0..5 bytes, known extensions with long and dotted paths, each way a file cannot be served; files to 33554433 bytes; files to 10^13 bytes; the open file has any of 6 descriptors', reach=['descriptors', 'history', 'large', 'sizes', 'extensions', 'names', 'unservable', 'request', 'request 404', 'request range', 'twice'], runs=[
  R('sizes', 'h14.c', '12 sizes 1..100000, arbitrary first, middle and last byte', 0), R('extensions', 'h14.c', 'every extension of 0..5 bytes behind 6 names', 1), R('names', 'h14.c', '5 directories x 5 name lengths x 12 extensions in lower, upper and mixed case, type preset or not', 2), R('unservable', 'h14.c', 'missing, unopenable, unmappable', 3), R('requests', 'h14.c', '10 sizes x 4 file states x 3 ranges x send failure', 4), R('twice', 'h14.c', 'two mappings of one file', 5), R('large', 'bigh.c', 'files of 65537..33554433 bytes', 5, max_insts=400000000), R('huge', 'bigh.c', 'files of 2^31-1..10^13 bytes, mapped or two bytes of them asked for', 9), R('history','hist.c','300 times two files whose content, size and presence change',9, max_insts=400000000), R('descriptors','h14.c','the open file has descriptor 0, 1, 2, 3, 1023 or 65536',6)])
CHECKS['H17'] = dict(note='7 templates with 0..2 arbitrary bytes at both ends, 10 sizes around page multiples x 6 endings, each way a file cannot be served; files to 140000 bytes', reach=['history', 'large', 'short templates', 'page sizes', 'unservable template', 'rendered request'], runs=[
  R('short', 'h14.c', '7 templates, 0..2 arbitrary bytes before and behind', 10), R('pages', 'h14.c', '10 sizes 1..12288 x 6 endings', 11), R('unservable', 'h14.c', 'missing, unopenable, unmappable', 12), R('request', 'h14.c', 'through a request', 13), R('large', 'bigh.c', 'template files of 4096..140000 bytes', 6, max_insts=400000000), R('history','hist.c','300 template files of the same name with changing content',10, max_insts=400000000)])
CHECKS['H18'] = dict(note='48 sizes around multiples of 256..16384 x 6 bodies with the connection left open, 10 bodies sent by themselves, cut requests, five endless clients, requests of 1.05 MiB and of 2 MiB less one byte; 1200 requests one after another', reach=['lookalikes refused', 'history', 'whole', 'body later', 'cut, answered', 'cut, refused', 'endless', 'large', 'across'], runs=[
  R('whole', 'h18.c', 'requests of 48 sizes (256, 512, 1024, .. 16384 and a few bytes more or less) x 6 body lengths, four body bytes arbitrary, connection left open', 0), R('later', 'h18.c', '10 body lengths 1..10240 sent after the header block, with 0, 3 or 2000 bytes more behind', 1), R('cut', 'h18.c', 'requests cut after 1..3000 bytes, four bytes arbitrary, then closed', 2), R('endless', 'h18.c', '3.5 MB of header, path or body with three arbitrary bytes, four Content-Length values', 3, max_insts=400000000), R('large', 'h18.c', '1.05 MiB and 2 MiB less one byte, four body bytes arbitrary', 4, max_insts=400000000), R('across', 'h18.c', 'header blocks ending 5 bytes before to 6 behind a multiple of the read size, body to the next but one', 5), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',7, max_insts=400000000), R('lookalikes', 'h18.c', 'ten header blocks with something like a Content-Length in names, values, paths, twice, negative, not a number; lookalikes in the body; 1..3 full reads, two bytes arbitrary',6)])
CHECKS['H19'] = dict(note='all combinations of address and agent given or not, five outcomes, arbitrary bytes in path, address and agent; 13 x 4 lengths, six sizes; three requests out of five; two to four arbitrary bytes in seventeen places of a request; 1200 requests one after another', reach=['history', 'parts', 'long lines', 'several', 'anything, answered', 'anything, refused'], runs=[
  R('parts', 'h18.c', 'address and agent present or not, five outcomes (200, 206, 302, 404, POST), 2..3 arbitrary bytes in each part', 10, real_log=True), R('long', 'h18.c', 'agents of 13 lengths 0..950, addresses of 0..500, bodies of 0..100000 bytes', 11, real_log=True), R('several', 'h18.c', 'every sequence of three out of five requests, answered and refused', 12, real_log=True), R('anything', 'h18.c', 'two to four arbitrary bytes at seventeen places of a request', 13, real_log=True), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',5, max_insts=400000000, real_log=True)])
CHECKS['H20'] = dict(note='every 32-bit status for the three helpers; eight statuses x three helpers x range x failing send through requests', reach=['heap', 'mapping', 'routes'], runs=[
  R('helpers', 'h18.c', 'every 32-bit status, heap bodies and file mappings of 7 and 5000 bytes', 20), R('routes', 'h18.c', 'eight statuses, three helpers, with and without a range, sending complete or failing', 21)])
CHECKS['H21'] = dict(note='six handlers x eight requests x custom 404 page or not x any of the first 56 allocations failing; the whole server with three connections and any of the first 71 allocations failing', reach=['handler without memory', 'form', 'range', 'nothing fails', 'answered all the same', 'refused', 'refused after the handler', 'server, nothing fails', 'server, one fails', 'registering'], runs=[
  R('requests', 'h21.c', 'six handlers (constant, heap, file, nine custom headers, form and cookie, 404) x eight requests (plain, range, form, late body, long header, no route, late and early bodies of 4000 and 2100 bytes), any of the first 56 allocations fails, then the same request again; three bytes arbitrary', 0), R('server', 'h21.c', 'three connections, 1..2 workers, six handlers, four requests, any of the first 71 allocations after the start fails', 1), R('registering', 'h21.c', 'both registrations', 2)])
CHECKS['H22'] = dict(note='paths, header and cookie values of arbitrary bytes; ten content types x arbitrary form values x place of the header x body early or late; every sequence of 2..3 of four requests; 15 sizes up to 7000 in four places; 140000 bytes; 1200 requests one after another; up to 500 headers, cookies or fields', reach=['many parts', 'history', 'large', 'get', 'header', 'cookie', 'form', 'no form', 'field', 'one after another', 'sizes'], runs=[
  R('get', 'h22.c', 'path, header value and cookie value of 0..2 arbitrary bytes, three orders of the headers', 0), R('types', 'h22.c', 'ten content types (with parameters, shorter, containing the form type) in three places, two fields of 0..3 and 1 arbitrary bytes, with the header block or after it', 1), R('after', 'h22.c', 'every sequence of 2..3 out of four requests on one application', 2), R('sizes', 'h22.c', '15 sizes 1..7000 as path, header value, field, body; early or late', 3), R('large', 'bigh.c', 'header values and fields of 4096..140000 bytes, body early or late', 7, max_insts=400000000), R('history','long.c','100, 300 and 1200 requests of 8 kinds one after another; a route and a file change on the way',3, max_insts=400000000), R('many','h22.c','15 numbers of headers, cookies or fields up to 500; the first, the middle and the last arbitrary, body early or late',4, max_insts=400000000)])
CHECKS['H16'] = dict(note='every sequence of 0..4 registrations on four starting configurations; two applications side by side; requests between registrations', reach=['between', 'two applications', 'history', 'registered', 'none registered'], runs=[R('sequences', 'h14.c', 'every sequence of 0..4 of 2 handlers and 2 cleanups, application with or without a 404 route', 20), R('history','hist.c','300 registrations',17, max_insts=400000000), R('apps','h14.c','two applications, 0..3 registrations on either, both asked in turn',21), R('between','h14.c','a request after each of 1..4 registrations',22)])
CHECKS['S01'] = dict(note='0..4 connections of 5 kinds, 1..3 workers; every single failing queue send; six full-queue moments; ten connections; failing sends; queues that cannot be opened', reach=['any descriptor', 'many gone', 'hundreds', 'answered', 'closed', 'no faults', 'queue fault', 'full queues', 'many', 'send fails', 'queue not opened', 'switches'], runs=[
  R('plain', 's01.c', '0..4 connections of 5 kinds, 1..3 workers, whole or short sends', 0), R('faults', 's01.c', '1..4 connections, one failing send to either queue at any of the first 7 sends', 1), R('full', 's01.c', '1..3 connections, either queue full at any of 6 moments', 2), R('many', 's01.c', '8..10 connections', 3), R('sends', 's01.c', 'a failing socket send and a failing queue send', 4), R('opens', 's01.c', 'any thread\'s queue cannot be opened', 5), R('switches', 's01.c', 'three clients, 2..3 workers, switches to the other threads at one or two of the first 61 (thorough 91) scheduling points (socket and queue calls, log calls, handler, cleanup)', 6), R('hundreds','bigs.c','100, 129, 257 and 300 connections, mixed or all of one kind, 1..2 workers that take turns or not; queues that never run full',0, max_insts=400000000), R('gone','bigs.c','300 mixed connections, many of whose clients go away while being answered',1, max_insts=400000000), R('descriptors', 'bigs.c', '14 connections whose descriptors begin at 250, 1017, 4090, 32760, 65530 or 999990, or one with descriptor 0, 1..2 workers, with and without interruptions', 4, max_insts=400000000)])
CHECKS['S02'] = dict(note='every start-up step failing, 0..5 workers, threads first scheduled at creation, at the join or after it; descriptors of six sizes; several starts', reach=['again and again', 'descriptor 0', 'late failure', 'all indices', 'many workers', 'fails', 'thread fails', 'starts', 'index', 'stale', 'late workers'], runs=[
  R('failing', 's01.c', 'socket, bind, listen, either queue, any thread x 1..4 workers x three schedules', 10), R('starts', 's01.c', '0..5 workers x three schedules x 1..3 connections', 11), R('stale', 's01.c', 'stale messages in either or both queues', 12), R('late', 's01.c', '1..3 workers scheduled after the start in two orders', 13), R('workers','bigs.c','6..300 workers (13 numbers around 32, 64, 128 and 256) x three schedules, one connection or as many as workers',10, max_insts=400000000), R('lately','bigs.c','33, 70, 129 and 300 workers, one of the last four threads cannot be started',11, max_insts=400000000), R('numbers','s01.c','the listening socket or the first queue has descriptor 0, 1, 3, 1023, 4096 or 70000; working or failing start-up',14), R('again','s01.c','three to five starts in one process, working or failing',15)])
CHECKS['S04'] = dict(note='2..4 responses of three kinds with whole, short and tiny sends; a switch at any of 51 scheduling points; six full-queue moments; 5..9 connections', reach=['turns', 'turn', 'more than one piece', 'order', 'switched', 'full now and then', 'many in order'], runs=[
  R('turns', 's01.c', '2..4 connections of three kinds (small, 9000 bytes, no route), 1..2 workers that take turns or not, sends that accept everything, 3000 or 60 bytes', 20), R('switched', 's01.c', 'three connections, one switch between the threads at any of 51 scheduling points, 1..2 workers', 21), R('full', 's01.c', '2..3 large responses, the queue full at any of 6 moments', 22), R('many', 's01.c', '5..9 connections', 23)])
CHECKS['S05'] = dict(note='seven reasons for a failing accept, up to three times, before any of up to three connections; any queue wait interrupted; rude first clients', reach=['any descriptor', 'hundreds of interruptions', 'hundreds of failing accepts', 'many gone', 'accept fails', 'two reasons', 'interrupted', 'interrupted anywhere', 'rude clients'], runs=[
  R('accept', 's01.c', '1..3 connections of three kinds, 7 errors, 1..3 failures in a row before any connection, 1..2 workers', 30), R('two', 's01.c', 'an interrupted accept and one that fails for any of 7 reasons in any order', 31), R('interrupted', 's01.c', '1..3 interruptions in a row at any of the first ten waits of workers and responder, 1..3 connections of three kinds, 1..2 workers', 32), R('anywhere', 's01.c', 'every combination of interruptions of the first 8 waits', 33), R('rude', 's01.c', '1..3 first clients that close, reset, cut or garble their request or go away while being answered, then three good ones', 34), R('gone','bigs.c','300 mixed connections, many of whose clients go away while being answered',1, max_insts=400000000), R('refusals','bigs.c','300, 100 and 10 connections, before each of which accept fails once, three and seventy times, 7 errors',2, max_insts=400000000), R('interruptions','bigs.c','100, 129, 257 and 300 connections with every other wait interrupted',3, max_insts=400000000), R('descriptors', 'bigs.c', '14 connections whose descriptors begin at 250, 1017, 4090, 32760, 65530 or 999990, or one with descriptor 0, 1..2 workers, with and without interruptions', 4, max_insts=400000000)])
CHECKS['S03'] = dict(note='every pair of eight requests in two workers, sets of three and four requests in three workers, arbitrary request bytes; every pair of ten uses of the library in two threads', reach=['pairs', 'two workers', 'three workers', 'more workers', 'arbitrary', 'direct', 'again', 'alone', 'answered alone', 'during'], runs=[
  R('pairs', 's03.c', 'two workers, a connection each, every pair out of 8 requests (raw, file, template, missing file, form and cookie, no route, malformed, range), whole or slow sending, own 404 page or not', 0, real_log=True, tsan=True), R('more', 's03.c', 'three workers, 3..4 connections, 6 sets', 1, real_log=True, tsan=True), R('arbitrary', 's03.c', 'two requests with 1..2 arbitrary bytes each in path, Range or form body', 2, real_log=True, tsan=True),
  R('direct', 's03.c', 'two threads, every pair out of 10 uses (seven templates, vector, hash, cookie/range/url/log)', 3, real_log=True, tsan=True), R('again', 's03.c', 'the same use in both threads, then another one in the first', 4, real_log=True, tsan=True),
  R('alone', 's03.c', 'every pair out of 8 requests in two workers, one switch at any of 25 scheduling points, against the response to the same request served alone', 5), R('during', 's03.c', 'a rendering with another thread\'s use of the library (one of 10) inside its 1st..3rd filter call', 6)])
CHECKS['T01'] = dict(note='texts of 0..4 arbitrary bytes; every sequence of up to 3 pieces (variables, members, arbitrary bytes, line ends); 24 near-markup texts; lines to 4097 bytes; values to 513 bytes; 300 lines; 257 on a line; lines to 70000 bytes', reach=['history', 'large', 'alike', 'every name', 'text', 'pieces', 'many', 'looks like markup', 'long lines', 'long values', 'line ends', 'many lines'], runs=[
  R('text', 't01.c', 'every text of 0..4 bytes without NUL, x, X', 0), R('pieces', 't01.c', 'every sequence of 1..3 (thorough 4) pieces out of 11 (variables with arbitrary values of 0..2 bytes, members, an arbitrary byte, text, line ends)', 1), R('many', 't01.c', '1..7 occurrences on one line or on many', 2), R('literals', 't01.c', '24 texts that only look like markup, four positions, an arbitrary byte behind them', 3), R('longlines', 't01.c', '18 sizes 30..4097', 4), R('longvalues', 't01.c', 'values of 500..513 bytes', 5), R('lineends', 't01.c', 'every sequence of 1..4 line ends, text and variables', 6), R('manylines', 't01.c', '40 and 300 lines', 7), R('everyname', 't01.c', 'every name of 1..4 letters, digits and underscores, of a variable and of a member', 8), R('alike', 't01.c', 'pairs out of 10 names that begin or end alike, top level and members, both orders', 9), R('manymore', 'bigt.c', '16..257 variables and members on one line', 0, max_insts=400000000), R('large', 'bigt.c', 'lines of 4095..70000 bytes around variables', 1, max_insts=400000000), R('history','hist.c','300 templates of the same size in the same buffer',12, max_insts=400000000), R('similar','bigt.c','11 pairs of names that differ in letter case, one character or at the end x variables, members, sub-contexts, filters, arrays, conditions, loop variables',14, max_insts=400000000)])
CHECKS['T02'] = dict(note='21 string lengths to 5000, 16 boundary integers and -2000..2000, arbitrary 1..2 byte names, names of 28..70 bytes, 1..70 entries, scopes; 1025 entries; contexts one after another in the same memory', reach=['one after another', 'history', 'large', 'depths', 'strings', 'integers', 'names', 'long names', 'many entries', 'scopes', 'filter names', 'similar names'], runs=[
  R('strings', 't02.c', '21 lengths 0..5000, first, middle and last kept byte arbitrary, in a context, a sub-context, an array', 0), R('integers', 't02.c', '16 boundary values and every integer -2000..2000', 1), R('names', 't02.c', 'three arbitrary names of 1..2 bytes out of five characters', 2), R('longnames', 't02.c', 'names of 28..70 bytes for strings, integers, sub-contexts, arrays, filters', 3), R('entries', 't02.c', '1..70 entries, any one looked up', 4), R('scopes', 't02.c', 'loop variable and outer variable, same or different name', 5), R('filters', 't02.c', 'three arbitrary filter names of 1..2 bytes', 6), R('similar', 't02.c', 'pairs of similar array names', 7), R('depths', 't02.c', 'variable, member, filter and filter argument looked up one to three scopes further in (condition, loop, condition in a loop, loop in a condition, include in a loop)', 8), R('large', 'bigt.c', '16..1025 entries, the last, last but one, middle or first used', 2, max_insts=400000000), R('deep', 'bigt.c', 'loops inside each other through 2..6 included files', 3, max_insts=400000000), R('history','hist.c','a context that grows between 150 renderings',14, max_insts=400000000), R('alike','bigt.c','11 pairs of names that differ in letter case, one character or at the end x variables, members, sub-contexts, filters, arrays, conditions, loop variables',14, max_insts=400000000), R('reused','t02.c','three contexts one after another in the same memory, names in four orders, two arbitrary values each',9)])
CHECKS['T03'] = dict(note='10 bodies x 0..3 items of 4 kinds x 9 tails; 2..3 loops in a row; up to 300 items; bodies and values to 4096 bytes; names of every character', reach=['history', 'large', 'bodies', 'empty', 'several', 'many items', 'mixed', 'nested', 'long bodies', 'arbitrary body'], runs=[
  R('bodies', 't03.c', '10 bodies x 0..3 items (arbitrary strings, integers, empty strings, sub-contexts) x 9 texts behind', 0), R('several', 't03.c', '2..3 loops behind each other over two arrays, 4 separations', 1), R('many', 't03.c', '17 sizes 1..300', 2, max_insts=60000000), R('mixed', 't03.c', '1..4 items of any kind', 3), R('nested', 't03.c', 'loops in conditions, conditions and filters in loops, names of 1..12 letters', 4), R('long', 't03.c', 'bodies and values of 100..4096 bytes', 5), R('arbitrary', 't03.c', 'arbitrary body and tail bytes', 6), R('large', 'bigt.c', '16..257 items, three constructs in the body, 500 further bytes', 11, max_insts=400000000), R('history','hist.c','an array that grows between 30 renderings',14, max_insts=400000000), R('chars','bigt.c','names of one arbitrary letter, digit or underscore and 12 others, for loop variables, arrays, conditions and files',13, max_insts=400000000), R('blocks','bigt.c','17, 33, 65 and 100 blocks in one template, on one line or on many',16, max_insts=400000000), R('bigbodies','bigt.c','bodies of LOOP, UNLESS and UNLESS NOT and the text behind them of 14 sizes 4095..70000, on one line or many',15, max_insts=400000000), R('scopes','bigt.c','loops inside each other through included files, 1..5 deep, with and without conditions, variables of every scope',3, max_insts=400000000)])
CHECKS['T04'] = dict(note='every kind of variable, strings of 0..6 arbitrary bytes; 11 bodies x 7 tails x 5 leads; similar and long names; in loops; arrays to 1024 items; names of every character', reach=['history', 'large', 'set', 'not set', 'both', 'names', 'long', 'in loops', 'arbitrary'], runs=[
  R('values', 't04.c', '11 bodies x 7 tails x 5 leads; for one of them every kind of variable, strings of 0..6 arbitrary bytes', 0), R('both', 't04.c', 'UNLESS and UNLESS NOT of the same variable, every kind of variable', 1), R('names', 't04.c', 'pairs out of 9 similar names', 2), R('long', 't04.c', 'names of 29..40 letters, bodies up to 4000 bytes', 3), R('loops', 't04.c', 'blocks inside a loop body', 4), R('arbitrary', 't04.c', '0..2 arbitrary bytes in the body and behind it', 5), R('sizes', 'bigt.c', 'arrays of 0..1024 items', 4, max_insts=400000000), R('history','hist.c','variables that are unset, then set',14, max_insts=400000000), R('chars','bigt.c','names of one arbitrary letter, digit or underscore and 12 others, for loop variables, arrays, conditions and files',13, max_insts=400000000), R('blocks','bigt.c','17, 33, 65 and 100 blocks in one template, on one line or on many',16, max_insts=400000000), R('bigbodies','bigt.c','bodies of LOOP, UNLESS and UNLESS NOT and the text behind them of 14 sizes 4095..70000, on one line or many',15, max_insts=400000000)])
CHECKS['T05'] = dict(note='arguments of 0..3 arbitrary bytes, up to three calls of three filters, variables in arguments, sizes to 3000, loops, conditions, includes; 257 calls; 70000 bytes; 257 filters; contexts with filters of the same names', reach=['own filters', 'history', 'large', 'argument', 'no argument', 'several', 'variables', 'long', 'in loops', 'no clean-up', 'names', 'in blocks'], runs=[
  R('one', 't05.c', 'argument of 0..3 arbitrary bytes, result of 0..2 arbitrary bytes, four positions', 0), R('several', 't05.c', '1..3 calls of three filters on one line or on lines, arbitrary argument bytes', 1), R('variables', 't05.c', 'six arguments with variables whose values are arbitrary', 2), R('long', 't05.c', 'arguments and results of 31..3000 bytes', 3), R('loops', 't05.c', '0..3 items with arbitrary values', 4), R('cleanup', 't05.c', 'no clean-up, ready-made clean-up, 1..3 calls', 5), R('names', 't05.c', 'pairs out of 7 similar names', 6), R('blocks', 't05.c', 'in conditions and includes', 7), R('manymore', 'bigt.c', '16..257 calls on one line', 5, max_insts=400000000), R('large', 'bigt.c', 'arguments and results of 4095..70000 bytes', 6, max_insts=400000000), R('filters', 'bigt.c', '16..257 filters, one of them called once or twice', 12, max_insts=400000000), R('history','hist.c','600 calls of a filter with another result each time',13, max_insts=400000000), R('others','t05.c','three contexts with filters of the same names, every order of four renderings, arbitrary argument',8)])
CHECKS['T06'] = dict(note='14 contents x leads x tails, arbitrary bytes, 23 sizes around the 2047-byte limit, nesting, names to 500 characters; 7 levels; names of every character', reach=['history', 'large', 'nested', 'files', 'arbitrary', 'over the limit', 'sizes', 'several', 'file names', 'context'], runs=[
  R('files', 't06.c', '14 contents x 5 leads x 4 tails', 0), R('arbitrary', 't06.c', 'files of 0..4 arbitrary bytes, with a variable', 1), R('sizes', 't06.c', '23 sizes 0..10000, first and last included byte arbitrary', 2), R('several', 't06.c', 'repeated, nested, in loops and conditions', 3), R('names', 't06.c', '8 names and names up to 500 characters', 4), R('context', 't06.c', 'loop variables in the included file', 5), R('nested', 't06.c', 'two and three levels of includes, six sizes 0..1900 in front of, in and behind the inner file', 6), R('deep', 'bigt.c', '1..7 files that include each other', 7, max_insts=400000000), R('history','hist.c','300 renderings, the included file another one each time',11, max_insts=400000000), R('chars','bigt.c','names of one arbitrary letter, digit or underscore and 12 others, for loop variables, arrays, conditions and files',13, max_insts=400000000)])
CHECKS['T07'] = dict(note='every pair of 17 template pieces rendered three times with arbitrary values; contexts of every kind freed unrendered; two contexts; 257 entries', reach=['history', 'large', 'again', 'contexts', 'two contexts'], runs=[
  R('again', 't07.c', 'every pair out of 17 template pieces, values of 0..2 arbitrary bytes, rendered three times', 0), R('twice', 't07.c', 'the same with the first piece repeated', 1), R('contexts', 't07.c', 'seven kinds of contexts with 0..3 and 40 entries freed without rendering', 2), R('two', 't07.c', 'two contexts rendered in turn', 3), R('large', 'bigt.c', '16..257 entries or items of five kinds', 8, max_insts=400000000), R('history','hist.c','the same rendering 300 times',15, max_insts=400000000)])
CHECKS['T09'] = dict(note='34 and 66 values, 29..36 entries with sub-contexts, 18 filters, arrays of 2 and 18 items: any allocation fails', reach=['value refused', 'nothing fails', 'sub-context refused', 'filter refused', 'array refused', 'item refused'], runs=[
  R('values', 't09.c', '34 or 66 strings or integers, any allocation while they are added fails', 0), R('subs', 't09.c', '29..32 values and four sub-contexts', 1), R('filters', 't09.c', '18 filters', 2), R('arrays', 't09.c', 'an array of 2 or 18 strings and integers or sub-contexts behind 30..32 values', 3)])
CHECKS['T08'] = dict(note='every pair of 30 template ends; arbitrary texts; 24 sizes; 16 incomplete templates; 70000 bytes', reach=['history', 'large', 'ends', 'arbitrary', 'sizes', 'incomplete'], runs=[
  R('ends', 't07.c', 'every pair out of 30 template ends', 10), R('arbitrary', 't07.c', 'texts of 0..4 arbitrary bytes', 11), R('sizes', 't07.c', '24 sizes 1..5000', 12), R('incomplete', 't07.c', '16 incomplete templates', 13), R('large', 'bigt.c', '14 sizes 4095..70000, three ends', 9, max_insts=400000000), R('history','hist.c','the same rendering 300 times',15, max_insts=400000000)])
CHECKS['T10'] = dict(note='every sequence of 1..3 (thorough 4) of 16 pieces on one line or on lines; every pair in a LOOP body, in UNLESS bodies, in an included file; 5, 20, 60 times the same', reach=['large', 'lines', 'line', 'included', 'in a loop', 'in a condition', 'many'], runs=[
  R('line', 't10.c', 'every sequence of 1..3 (thorough 4) out of 16 pieces on one line, two arbitrary value bytes', 0, ttime=1500, max_insts=60000000), R('lines', 't10.c', 'the same on lines of their own', 1, ttime=1500, max_insts=60000000), R('nested', 't10.c', 'every pair of pieces in the body of a loop, of conditions, in an included file, values of 0..2 arbitrary bytes', 2, max_insts=60000000), R('many', 't10.c', '5, 20 or 60 times the same piece', 3, max_insts=60000000), R('manymore', 'bigt.c', '16..257 constructs in turn', 10, max_insts=400000000), R('long','bigt.c','bodies of LOOP, UNLESS and UNLESS NOT and the text behind them of 14 sizes 4095..70000, on one line or many',15, max_insts=400000000), R('scopes','bigt.c','loops inside each other through included files, 1..5 deep, with and without conditions, variables of every scope',3, max_insts=400000000)])
CHECKS['L01'] = dict(note='six levels x 21 message lengths 0..5000, six formats, format strings to 5000 bytes; two threads', reach=['history', 'two threads', 'messages', 'cut', 'formats', 'levels', 'long formats'], runs=[
  R('messages', 'l01.c', 'six levels x 21 lengths 0..5000, first, middle and last kept byte arbitrary', 0, real_log=True), R('formats', 'l01.c', 'six formats with arbitrary strings', 1, real_log=True), R('levels', 'l01.c', 'the levels in turn', 2, real_log=True), R('long', 'l01.c', 'format strings of 0..5000 bytes', 3, real_log=True), R('threads', 'l01.c', 'two threads, every pair of levels, six lengths each, the other one logging at any of the first nine points around calls to the stream and the clock', 4, real_log=True), R('history','hist.c','300 lines',16, max_insts=400000000, real_log=True)])
CHECKS['B01'] = dict(note='templates of 0..3 arbitrary code points, eleven context shapes with arbitrary keys and values, results of 0..2 arbitrary code points; three templates and contexts rendered crosswise', reach=[], runs=[], technique='symbolic execution of the Python code (run by the interpreter on z3-valued strings, forking on every code-point decision), every assertion decided by z3')
