#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
H="src/viriatum/"; C="src/viriatum_commons/"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
NOTEST="No existing test opens a connection to the server: the 21 simple_tests only call helpers of the commons library."
# ---------------------------------------------------------------- server
p("S01","Segmentation invariance",
 "The sequence of response bytes the server sends on a connection depends only on the sequence of request bytes received on it, never on how those bytes were cut into network segments, how many were delivered per readiness notification, or how large each receive was. In particular a request whose line, headers or body straddle any segment boundary is answered exactly as if it had arrived whole.",
 ["schedules","inputs"],"every request stream and every partition of it into segments and receive sizes",
 NOTEST+" Even a socket test samples one segmentation; the property ranges over all of them.",
 [H+"stream/stream_http.c",H+"stream/stream_io.c",H+"http/http_parser.c"],
 [("request buffer accumulated across reads and parsed incrementally",H+"stream/stream_http.c:data_handler_stream_http"),("resumable parser state and marks",H+"http/http_parser.c")],
 [("http_connection buffer/offsets","bytes received and not yet parsed",H+"stream/stream_http.h")],["bytes sent on the socket"])
p("S02","Request parsing conforms to the HTTP/1.x request grammar",
 "For every byte sequence, the request parser reports exactly the method, URL, header fields, header values, body and message end that the HTTP/1.x grammar it implements assigns to that sequence, each byte of each element once and in order, and reports them identically however the sequence is cut into calls. A sequence outside the grammar is rejected with a parse error, and a rejected or unfinished message is never reported as complete.",
 ["inputs","schedules"],"every byte sequence (bounded lengths enumerated), every split into calls",
 "No test drives the HTTP parser.",
 [H+"http/http_parser.c",H+"http/http_parser.h"],[("character-level state machine and its callbacks",H+"http/http_parser.c:process_data_http_parser")],
 [("http_parser.state","grammar position",H+"http/http_parser.h")],["parser callbacks"])
p("S03","Pipelined requests are answered in order, one response each",
 "When several requests arrive on one persistent connection, whether pipelined in one segment or spread over many, the server sends exactly one complete response per request, in the order of the requests, and never mixes bytes of different responses. Requests after one that closes the connection are not answered.",
 ["schedules","inputs","histories"],"every sequence of requests, segmentation and interleaving with the client's reading",
 NOTEST,[H+"stream/stream_http.c",H+"stream/stream_io.c",H+"handlers/handler_file.c"],
 [("connection lock taken while a response is in production, released when it is out",H+"stream/stream_http.c"),("FIFO write queue",H+"stream/stream_io.c:write_connection")],
 [("http lock","a request is being answered",H+"stream/stream_http.h")],["bytes sent on the socket"])
p("S04","Connection persistence follows the request's Connection header",
 "After answering a request the server keeps the connection open exactly when the request asked for it with 'Connection: keep-alive' (in any letter case, in HTTP/1.0 and 1.1 alike), and announces what it does in the response's own Connection header; otherwise it closes the connection, and only after the whole response has been sent. A kept connection goes on to serve the next request on it.",
 ["inputs","histories"],"every combination of version, Connection header, handler and position in the connection's history",
 NOTEST,[H+"http/http_parser.c",H+"handlers/handler_file.c",H+"handlers/handler_default.c",H+"stream/stream_io.c"],
 [("keep-alive decision",H+"http/http_parser.c"),("callback after the last write closes or releases the connection",H+"handlers/handler_file.c")],(),["socket close","bytes sent"])
p("S05","Responses are delivered completely under any backpressure",
 "Whatever number of bytes the network accepts per send, including none for a while, every response reaches the client complete, in order, without loss, duplication or corruption, as long as the client keeps reading. While one client does not read, the server neither blocks nor delays other clients.",
 ["schedules","fault_sequences"],"every sequence of send acceptances (full, partial, would-block) and window openings",
 NOTEST,[H+"stream/stream_io.c",H+"polling/polling_epoll.c"],
 [("write queue with partially sent buffers re-queued",H+"stream/stream_io.c:write_handler_stream_io"),("outstanding writes and edge-triggered readiness",H+"polling/polling_epoll.c")],
 [("write queue","responses not yet sent",H+"system/service.h")],["bytes sent on the socket"])
p("S06","Static files are served byte for byte with correct metadata",
 "A request naming an existing regular file below the document root gets a 200 response whose body is exactly the file's content, whose Content-Length is that content's length, whose Content-Type is the one registered for the file name's extension regardless of case, and which carries a validator and announces byte-range support. This holds for every file size, including empty and larger than any internal buffer, and for names that arrive percent-encoded.",
 ["inputs","configurations"],"every file size, name, extension and encoding of the path",
 NOTEST,[H+"handlers/handler_file.c",C+"io/file.c",H+"system/service.c"],
 [("chunked sending of the file",H+"handlers/handler_file.c:send_chunk_handler_file"),("mime table",H+"system/service.c")],(),["bytes sent on the socket"])
p("S07","Byte ranges select exactly the requested bytes",
 "A request with a satisfiable single 'Range: bytes=a-b', 'a-' or '-n' gets a 206 response whose body is exactly those bytes of the file, whose Content-Length is their number and whose Content-Range states first, last and total. A range that is malformed or lies outside the file never yields bytes that are not in the file or a response whose length disagrees with its body.",
 ["inputs"],"every file size and every Range value, valid or not",
 NOTEST,[H+"handlers/handler_file.c",H+"http/http_util.c"],
 [("range parsing",H+"http/http_util.c:get_http_range_limits"),("seek and bounded chunk reads",H+"handlers/handler_file.c")],(),["bytes sent on the socket"])
p("S08","Conditional requests never hide a change",
 "A request whose If-None-Match equals the file's current validator gets 304 with no body, and any other value gets the full current content. The validator stays the same while the file is unmodified and differs after a modification with a later modification time.",
 ["histories","inputs"],"every history of requests and file modifications, every validator value",
 NOTEST,[H+"handlers/handler_file.c",C+"io/file.c"],[("etag from the modification time",H+"handlers/handler_file.c")],(),["bytes sent on the socket"])
p("S09","Directories: redirect, index file, sorted listing",
 "A request for a directory without the trailing slash is redirected to the same path with it; with the slash it gets the configured index file when the request is dispatched (handler 'dispatch') and one exists there, and otherwise a listing that names every entry of the directory exactly once, directories before files, in name order. The listing never depends on the order in which the file system returns entries.",
 ["inputs","configurations"],"every directory content and index configuration",
 NOTEST,[H+"handlers/handler_file.c",H+"handlers/handler_dispatch.c",C+"io/file.c",C+"template/engine.c",C+"template/handler.c"],
 [("redirect and listing",H+"handlers/handler_file.c"),("index resolution",H+"handlers/handler_dispatch.c"),("sorted directory list",C+"io/file.c")],(),["bytes sent on the socket"])
p("S10","No response reveals anything outside the document root",
 "Whatever path a request names, in whatever encoding, the server returns content only of files and directories under the document root (or the base path configured for the matching location); a path that leads outside it or to nothing is answered 404. No other file's content, directory listing or existence is disclosed.",
 ["inputs","configurations"],"every request path, including dot segments, encoded separators, repeated slashes and over-long paths",
 NOTEST,[H+"handlers/handler_file.c",H+"handlers/handler_dispatch.c",C+"encoding/percent.c"],
 [("path decoding and join with the base path",H+"handlers/handler_file.c:url_callback_handler_file")],(),["bytes sent on the socket"])
p("S11","Protected locations need valid credentials",
 "A request for content of a location configured with basic authentication gets that content only if its Authorization header carries a user name and password that appear together in the location's password file (or are the configured defaults); every other request, with no, wrong, malformed, truncated or oversized credentials, gets 401 with a Basic challenge and none of the content. Valid credentials are always accepted.",
 ["inputs","configurations"],"every Authorization value, every password file",
 NOTEST,[H+"handlers/handler_file.c",H+"http/http_util.c",C+"formats/passwd.c",C+"encoding/base_64.c"],
 [("authorization check before content",H+"handlers/handler_file.c"),("credential verification",H+"http/http_util.c:auth_http")],(),["bytes sent on the socket"])
p("S12","A request is handled by the first matching location",
 "Each request is given to the handler configured for the first location, in configuration order, whose pattern matches its path (query string excluded, percent escapes of characters that can stand for themselves decoded, dot segments and repeated slashes resolved), with that location's own settings, and to the file handler when none matches. The choice depends on the request alone, never on earlier requests of the same or other connections.",
 ["inputs","configurations","histories"],"every location table, path and request history",
 NOTEST,[H+"handlers/handler_dispatch.c",H+"system/service.c"],[("ordered regex table",H+"handlers/handler_dispatch.c:url_callback_handler_dispatch")],(),["bytes sent on the socket"])
p("S13","One client cannot take the server down or disturb another",
 "No bytes a client sends (malformed, oversized, truncated or abusive), and no moment at which it disconnects or resets, makes the server crash, hang, access memory out of bounds or stop serving: other connections and later requests are answered as if that client had not existed, and none waits while the server reads without limit from another. Any number of connections may be open, ready or closed at once, and one that cannot be accepted for want of descriptors is accepted after another has been closed. A malformed request gets no success response and its connection is closed.",
 ["inputs","schedules","fault_sequences"],"every client byte stream, disconnect point and interleaving with well-behaved clients",
 NOTEST,[H+"stream/stream_http.c",H+"stream/stream_io.c",H+"http/http_parser.c",H+"handlers/handler_file.c",H+"polling/polling_epoll.c"],
 [("bounded buffers",H+"stream/stream_http.c"),("deferred connection removal",H+"polling/polling_epoll.c")],(),["process status","bytes sent on the socket"])
p("S14","Every connection is eventually released, with all it holds",
 "Each accepted connection is closed exactly once, when its client goes away or its last response is out, and then its descriptor, open files, timers, queued data and memory are all released. After any history of connections the server holds no more resources than before it, and its reported number of connections is the number of open ones (each listening socket counts as one).",
 ["histories","schedules","fault_sequences"],"every history of connects, requests, aborts at any point",
 NOTEST,[H+"system/service.c",H+"stream/stream_io.c",H+"stream/stream_http.c",H+"handlers/handler_file.c",H+"polling/polling_epoll.c"],
 [("close and deferred delete",H+"polling/polling_epoll.c"),("handler context deletion on close",H+"stream/stream_http.c")],(),["descriptor table","allocation count","diagnostics module"])
p("S15","The proxy forwards each request unchanged to the right backend",
 "A request matching a proxied location reaches the backend that the location's proxy_pass names (host and port; its path is not used), exactly once and in the order of the requests of its connection: with the same method, version, header fields in order with their values (a marker field in front of them) and body byte for byte, and with its path below the location's prefix and its query as they were written. This holds however the client's bytes are segmented, pipelined or framed (length, chunked), however large the request is and however slowly the backend takes it, and whatever was proxied before on the same connection.",
 ["inputs","schedules"],"every request, segmentation and backend acceptance pattern",
 NOTEST,[H+"handlers/handler_proxy.c",H+"system/client.c",H+"stream/stream_httpc.c",H+"polling/polling_epoll.c"],[("request reassembly into the out buffer",H+"handlers/handler_proxy.c"),("backend connections by location",H+"handlers/handler_proxy.c"),("outstanding operations",H+"polling/polling_epoll.c")],(),["bytes received by the backend"])
p("S16","The proxy relays the backend's response unchanged, or reports 502",
 "The client of a proxied request receives the backend's response: status, header fields in order (a marker field in front of them) and body byte for byte, and informational responses before it; whatever its framing (length, chunked, none, end of connection), however the backend segments it, however large it is and however slowly the client reads. The client's connection is kept exactly when the response says keep-alive and delimits itself. Responses of concurrent clients or of successive requests are never mixed up, and what a backend sends beyond its response reaches nobody. If the backend cannot be reached or closes before the head of a response, the client gets 502; if it breaks off later, the client's connection is closed after the part that was received. Backend connections do not outlive their client, and the server goes on serving.",
 ["schedules","fault_sequences","inputs"],"every backend response, segmentation, failure point and interleaving of clients",
 NOTEST,[H+"handlers/handler_proxy.c",H+"stream/stream_httpc.c",H+"http/http_parser.c",H+"http/http_util.h"],[("response relay through the http client stream",H+"handlers/handler_proxy.c")],(),["bytes sent to the client","bytes received by the backend"])
p("S17","Module handlers answer completely for any request",
 "The shipped module handlers (default, GIF, diagnostics, Lua) answer each request dispatched to them with one complete, well-formed response carrying their content: the fixed page or image, the server's current state, or exactly what the script wrote. A failing script yields an error response and leaves the server serving.",
 ["inputs","histories","configurations"],"every request, script outcome and sequence of requests over the handlers",
 NOTEST,[H+"handlers/handler_default.c","modules/mod_gif/src/viriatum_mod_gif/module/handler.c","modules/mod_diag/src/viriatum_mod_diag/module/handler.c","modules/mod_lua/src/viriatum_mod_lua/module/handler.c",H+"module/loading.c"],
 [("module registration",H+"module/loading.c")],(),["bytes sent on the socket"])
p("S18","Every response is one well-formed HTTP message",
 "Every response the server sends starts with a status line carrying the request's outcome, has well-formed header lines ended by an empty line, and a Content-Length equal to the number of body bytes that follow before the next response or the close, so that the client can always delimit it. Error responses name the status they carry.",
 ["inputs","configurations"],"every request and outcome, over all handlers",
 NOTEST,[H+"http/http_util.c",H+"handlers/handler_file.c"],[("header and message writers",H+"http/http_util.c")],(),["bytes sent on the socket"])
p("S19","Termination signal stops the server cleanly",
 "When asked to terminate, the server finishes its current event round, closes the listening sockets and every open connection, runs module shutdown and exits with status zero, whatever connections and unsent responses exist at that moment; it accepts no connection afterwards.",
 ["schedules","crash_points"],"every moment of the signal relative to connections, requests and unsent data",
 NOTEST,[H+"viriatum.c",H+"system/service.c"],[("stop flag and orderly shutdown",H+"system/service.c")],(),["process status","descriptor table"])
p("S20","Configuration precedence: command line over file over defaults",
 "For every option, the effective value is the one given on the command line if given, else the one in the configuration file, else the documented default, independently of the order in which options appear. The server listens and dispatches according to the effective values.",
 ["configurations"],"every subset of options over the three sources",
 NOTEST,[H+"system/service.c",H+"viriatum.c",C+"util/arguments_util.c"],[("successive loading of options",H+"system/service.c")],(),["listening address and port","selected handler"])
p("S21","Encrypted connections are served like plain ones",
 "A server asked to use encryption presents the configured certificate and serves every TLS client (1.2 and 1.3, whatever the sizes in which the records travel, with changes of keys) as it would serve the same requests in clear: each answered, in order, completely, unchanged, and kept or closed as asked. A client that breaks the protocol, sends clear text, has a byte changed on the way or leaves at any point of the greeting or of a record is dropped and disturbs no other connection, whatever state that one is in; nothing is kept of those that left; nothing is ever sent in clear; a request to terminate is honoured; and without a usable certificate and key the server does not start.",
 ["inputs","schedules","histories"],"every cut of the record stream, every point of leaving or corruption, every state of the other connections",
 "Existing tests never start the server, with or without encryption.",["src/viriatum/stream/stream_io.c","src/viriatum/system/service.c","src/viriatum/system/service.h"],[("handshake, encrypted receive and send",H+"stream/stream_io.c"),("send and receive operations",H+"system/service.h")],(),["bytes sent on the socket","socket lifetime","process status"])
p("S22","Worker processes serve alike and end together",
 "A server built with worker support (--enable-prefork) and asked for n workers, on the command line or in the configuration file, has exactly n of them, 64 at most, before it serves anybody, all made by the main process. The main process and each worker serve the connections they accept as a single server would, also when another process was quicker to accept one. A process that is asked to terminate, at any moment, ends in order with status zero and the others go on as before. When the main process is asked to terminate, at any moment, also while it is still making its workers, every worker is asked to terminate, has ended and has been awaited before the main process ends; no other process is ever sent a signal and none is left behind.",
 ["configurations","schedules","histories"],"every number of workers, every assignment of connections to processes, every moment and receiver of a termination signal",
 "Existing tests never start the server; the build they use has no workers.",["src/viriatum/system/service.c","src/viriatum/system/service.h"],[("create_workers, join_workers",H+"system/service.c")],(),["processes and their status","signals sent","answers of each process"])
# ---------------------------------------------------------------- commons
T="Existing tests run a few fixed operations: "
p("C01","Hash map behaves as a finite map",
 "After any sequence of set and lookup operations, with integer or string keys, the hash map returns for each key exactly the value last set for it and nothing for keys never set; its size is the number of keys present, and iteration yields each present key and value exactly once. Growth, collisions and overwriting never lose, merge or resurrect entries.",
 ["histories","inputs"],"every operation sequence, including colliding keys and growth",
 T+"test_hash_map inserts distinct keys; no overwrite, removal or collision.",[C+"structures/hash_map.c"],
 [("open addressing with resize",C+"structures/hash_map.c")],(),["public map functions"])
p("C02","Sort map is a map that remembers insertion order",
 "After any sequence of operations the sort map returns for each key the last value set, and iterating it or its key list yields each present key exactly once in the order of first insertion. Setting an existing key replaces its value without duplicating or invalidating the key.",
 ["histories"],"every operation sequence",T+"test_sort_map inserts distinct keys once.",[C+"structures/sort_map.c"],
 [("hash map plus ordered key list",C+"structures/sort_map.c")],(),["public map functions"])
p("C03","Linked list behaves as a sequence",
 "After any sequence of append, insert, remove, pop, clear and sort operations the linked list holds exactly the resulting sequence of values, its size is the sequence's length, and iterating from either end visits it in order. Removed or cleared values are never seen again and operations on an empty list are harmless.",
 ["histories"],"every operation sequence",T+"test_linked_list does one append/remove series.",[C+"structures/linked_list.c"],
 [("doubly linked nodes",C+"structures/linked_list.c")],(),["public list functions"])
p("C04","Priority queue serves by priority, first in first out among equals",
 "After any sequence of pushes and pops, a pop returns the earliest-pushed among the queued values of best priority, each pushed value is returned at most once, and the reported length is the number of values queued. Popping an empty queue returns nothing and changes nothing.",
 ["histories"],"every sequence of pushes and pops",T+"test_priority_queue pushes a fixed series.",[C+"structures/priority_queue.c"],
 [("ordered insertion",C+"structures/priority_queue.c")],(),["public queue functions"])
p("C05","INI parsing yields exactly the file's assignments",
 "For every INI file, the parsed configuration holds, per section, exactly the keys assigned there with the last value assigned to each, in file order, ignoring comments, blank lines and white space around names and values, whatever the line endings and whether or not the last line is terminated. No input makes parsing fail otherwise or access invalid memory.",
 ["inputs"],"every file content over the INI alphabet (bounded lengths enumerated)","The tests parse no INI file beyond one sample.",[C+"ini/ini.c"],
 [("character state machine",C+"ini/ini.c")],(),["parsed configuration"])
p("C06","URL parsing splits a URL into its parts",
 "For every URL the parser reports exactly its scheme, user, password, host, port, path, query and fragment, with absent parts reported absent, and the same parts whether the results point into the input or are copied out.",
 ["inputs"],"every URL built from every combination of present and absent parts and of part contents",T+"test_url parses one fixed URL.",[C+"formats/url.c"],
 [("character state machine",C+"formats/url.c")],(),["parsed parts"])
p("C07","Percent encoding round-trips; decoding is safe on any input",
 "Decoding the percent-encoding of any byte string gives back that string, and the encoding contains only characters that may appear in a URL. Decoding any string, well-formed or not, terminates, never reads beyond its end, and replaces only well-formed escapes (and '+', which stands for a space), in one pass.",
 ["inputs"],"every byte string (bounded lengths enumerated)",T+"test_percent_encode encodes and decodes one string.",[C+"encoding/percent.c"],
 [("encoder and decoder",C+"encoding/percent.c")],(),["encoder and decoder results"])
p("C08","Base64 round-trips; malformed input is rejected",
 "Decoding the Base64 encoding of any byte string gives back that string, and encoding conforms to RFC 4648 including padding. Decoding a string that is not valid Base64 reports an error or a result bounded by the input, never invalid memory access.",
 ["inputs"],"every byte string and every candidate encoding (bounded lengths enumerated)",T+"test_base_64 checks a few strings.",[C+"encoding/base_64.c"],
 [("encoder and decoder",C+"encoding/base_64.c")],(),["encoder and decoder results"])
p("C09","Bencoding round-trips values; malformed input is rejected",
 "Decoding the bencoding of any value built from 32-bit integers, strings, lists and maps (with distinct keys without zero bytes) gives back an equal value, and encoding a decoded canonical document reproduces it byte for byte. Malformed or truncated documents are reported as errors, never decoded to a value or read beyond their end.",
 ["inputs"],"every value (bounded depth and size) and every truncation or corruption of its encoding","No test decodes or encodes nested bencoded values.",[C+"encoding/bencoding.c",C+"structures/type.c"],
 [("encoder and decoder",C+"encoding/bencoding.c")],(),["encoder and decoder results"])
p("C10","Templates render exactly the text the template denotes",
 "For every template and every set of assigned values, the output is the template's literal text with each output tag replaced by its variable's value, each loop body repeated once per element in order, and each conditional body kept exactly when its condition holds. Text outside tags is copied byte for byte up to the last character of the file.",
 ["inputs"],"every template over the supported tags (bounded size and nesting) and every assignment",T+"test_template_handler renders one fixed template without checking the output.",[C+"template/engine.c",C+"template/handler.c"],
 [("tag parser and node visitor",C+"template/engine.c")],(),["rendered output"])
p("C11","Thread pool runs every task exactly once",
 "Each task inserted in the thread pool is executed exactly once by some worker, tasks start in insertion order, no more tasks run at once than the pool has workers, and no task is left waiting while a worker is idle. This holds for any number of tasks, workers and concurrent inserters.",
 ["schedules"],"every interleaving of inserters and workers","A test observes one schedule of a few tasks.",[C+"thread/thread_pool.c",C+"system/thread.h"],
 [("task queue under mutex and condition variable",C+"thread/thread_pool.c")],(),["task executions"])
p("C12","Huffman coding and bit streams round-trip any data",
 "Decoding a Huffman-encoded stream gives back the original bytes for every input, including empty and single-symbol ones, using a prefix-free code; and a bit stream read back with any sequence of widths, also after going back in it, yields the bits that were written.",
 ["inputs","histories"],"every byte string (bounded) and every sequence of bit-field widths",T+"test_huffman encodes one fixed file and never compares the decoded output.",[C+"compression/huffman.c",C+"stream/bit_stream.c"],
 [("code table construction",C+"compression/huffman.c"),("bit buffer",C+"stream/bit_stream.c")],(),["decoded bytes"])
p("C13","Memory and file streams behave like files",
 "For any sequence of open, write, read, seek, tell and close operations, memory streams and file streams both return what an ordinary file would: reads give the bytes last written at the position, counts and positions advance by the bytes transferred, and reads at the end return nothing.",
 ["histories"],"every operation sequence (bounded)",T+"test_file_stream and test_memory_stream do one write and one read.",[C+"stream/memory_stream.c",C+"stream/file_stream.c",C+"stream/stream.h"],
 [("position and buffer management",C+"stream/memory_stream.c")],(),["stream operation results"])
p("C14","Sorting yields an ordered permutation",
 "Sorting any sequence, in an array or a linked list, with any comparison that is a total preorder leaves a permutation of the original elements in non-decreasing order, for every length including zero and one and with any number of equal elements.",
 ["inputs"],"every sequence (bounded length and values)",T+"test_quicksort sorts one array.",[C+"sorting/quicksort.c",C+"structures/linked_list.c"],
 [("quicksort",C+"sorting/quicksort.c")],(),["sorted sequence"])
p("C15","Password files yield exactly their entries",
 "Parsing a password file yields exactly one entry per user line with the part before the first colon as user and what follows, up to a second colon or the end of the line, as password, whatever the line endings and whether or not the last line is terminated, and whatever the lengths of the fields. Invalid lines never create an entry or corrupt others.",
 ["inputs"],"every password file (bounded lengths enumerated)","No test parses a password file.",[C+"formats/passwd.c"],
 [("line state machine",C+"formats/passwd.c")],(),["parsed map"])
p("C16","String buffers concatenate exactly what was appended",
 "Joining a string buffer or linked buffer after any sequence of appends (strings, characters, formatted text, partial strings) yields exactly the concatenation of the appended pieces in order, and the reported length is that result's length.",
 ["histories"],"every sequence of appends",T+"test_string_buffer and test_linked_buffer join one fixed series.",[C+"structures/string_buffer.c",C+"structures/linked_buffer.c"],
 [("piece lists and join",C+"structures/string_buffer.c")],(),["joined string"])
p("C17","Command line arguments are recognised exactly",
 "Parsing a command line yields exactly one entry per '--name', '--name=value' or '-x' argument with its value, whatever its length; a positional argument creates no entry and alters none; a later occurrence of the same name replaces the earlier one.",
 ["inputs"],"every argument vector (bounded)",T+"test_arguments parses one vector.",[C+"util/arguments_util.c"],
 [("argument state machine",C+"util/arguments_util.c")],(),["parsed arguments"])
p("C18","Memory pool and array list keep their elements apart",
 "Every block handed out by the memory pool is disjoint from every other live block and usable in its full size, freed blocks may be reused but live ones never move; and an array list returns at each index below its capacity the value last stored there, for any element size.",
 ["histories"],"every sequence of allocations, frees and accesses",T+"test_memory_pool and test_array_list-style calls are fixed short series.",[C+"memory/memory_pool.c",C+"structures/array_list.c"],
 [("slab allocation",C+"memory/memory_pool.c"),("growing array",C+"structures/array_list.c")],(),["pointers and stored values"])
p("C19","Digests and ciphers equal their published algorithms",
 "MD5, SHA-1, CRC-32 and RC4 give for every input, however it is cut into calls, the result the published algorithm defines, and leave the input as it was.",
 ["inputs"],"every byte string and every chunking",T+"a few published vectors.",[C+"checksum/md5.c",C+"checksum/sha1.c",C+"checksum/crc_32.c",C+"crypto/rc4.c"],
 [("update/finalize",C+"checksum/md5.c")],(),["digest"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
