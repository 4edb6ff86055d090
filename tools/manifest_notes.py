TV="TLA+ model checking (TLC), tests generated from the state graph, recorded traces validated against the specification"
SV='TLA+ model checking (TLC), scenarios generated from the specification and run on the real server over a simulated network, recorded traces validated against Server.tla'
PV=SV.replace("Server.tla","Proxy.tla")
NOTES={
"C01":(TV,"Open-addressing design checked exhaustively in small bounds; every transition of the abstract map (4 keys, 2 values) replayed in the code with several concrete key families (colliding, extreme, string), plus long random histories; every recorded call validated by TLC. Trusts the driver and ASan for memory safety."),
"C02":(TV,"As C01, with insertion order; the order and size of both key lists observed after every call."),
"C03":(TV,"Pointer design refines the sequence (exhaustive, 6 nodes); every transition of the list's state graph up to 4 values replayed and observed forwards, backwards and by iterator after every call; random long histories."),
"C04":(TV,"Priority rule stated over a set, sorted-list design shown to agree (exhaustive to 4-6 entries); every transition replayed; long random histories with equal priorities validated."),
"C14":(TV,"Partition design model-checked for every input up to length 5 incl. termination; same inputs replayed in the code plus random longer ones, each result validated as an ordered permutation that leaves the rest of the array alone."),
"C16":(TV,"All kinds of append in every order up to length 3-4 and random longer sequences, every join compared with the specified concatenation."),
"C18":(TV,"Pool design (chunks, bitmap, free indexes, shrinking) model-checked for double allocation; code driven across chunk borders with real chunk size, every block handed out checked against the live set; array list per element size and index."),
"S01":(SV,'Segmentation.tla generates cuts of the request stream; every two-part cut and random multi-part cuts of a set of request streams run on the server, all compared with the one-segment exchange by TLC. Network simulated at the system-call level; single process.'),
"C05":(TV,"Every string of up to 4 (thorough 6) symbols over the INI alphabet, random files of every kind of line and line ending, and long names; what process_ini_file returns is judged by the line-based meaning in Text.tla. ASan decides memory safety."),
"C06":(TV,"Every combination of present and absent parts with several contents, separators inside parts, lengths around every buffer; the URL is composed by Text.tla from the parts and both parsers must give them back. Other strings (bounded, mutated, overlong) must be refused or taken apart within bounds."),
"C07":(TV,"Bounded strings over the escape alphabet, all 1- and many 2-byte strings, all two-character escapes, random binary data; encoding, round trip and decoding judged by Text.tla; ASan decides over-reads."),
"C08":(TV,"Bounded strings over the Base64 alphabet, all 1- and many 2-byte inputs, random data and corrupted encodings; encoding and decoding judged by the RFC 4648 definition in Text.tla; ASan decides over-reads."),
"C15":(TV,"Every string of up to 5 (thorough 8) symbols over the alphabet of password files, generated files, long fields; entries judged by Text.tla."),
"C09":(TV,"Decoding machine with a stack; round trip, canonicity and rejection of every truncation model-checked over every document of up to 5 symbols and values built step by step; the same machine judges every short document, corruptions of random documents, and values encoded and decoded by the code (lists, ordered and hash maps)."),
"C10":(TV,"Template language (tokens, tree, names, rendering) as a TLA+ module; laws (text is itself, concatenation, loop unrolling, conditions) model-checked over every short sequence of fragments; generated templates processed by the real code and every output judged by the same module. Well formed templates only; collections are not printed."),
"C11":(TV,"Pool design (mutex, condition, spurious wake-ups) model-checked: refines the abstract pool, mutual exclusion, no forgotten task, every task run under fairness. One schedule per transition of the design replayed in the real code, which runs under a controlled scheduler that also preempts at memory accesses (random schedules); every recorded run validated against the abstract pool with hidden enqueue and take steps. Sequentially consistent interleavings; deleting a pool is not covered."),
"C12":(TV,"Huffman design (joining the lightest trees) model-checked for round trip, prefix freedom and optimality over every text up to 6 of 4 symbols; real code tables, encoded bits and both decoders judged for bounded and random texts and skewed frequency tables; bit streams over every width sequence up to 3, across buffer borders and with seeks back."),
"C13":(TV,"One test per transition of the stream's state graph (memory; file in 4 modes), replayed at unit sizes of 1 byte to over the growth step; long random histories; each result judged by Stream.tla."),
"C17":(TV,"Every bounded command line over {a,-,=}, generated vectors with repeated names, long names and values; entries judged by Text.tla."),
"S03":(SV,'The design (ServerMC.tla) is model checked, safety and liveness; one history per transition of it, and every sequence of up to 2-3 requests over an alphabet of methods, targets, bodies and conditions, pipelined in several segmentations; each run validated against Server.tla (answers in order, one each, to the right request). Network simulated at the system-call level; single process.'),
"S04":(SV,'Every combination of HTTP version, Connection header spelling, method and answer kind; each run validated, with quiescence events deciding that the connection is kept or closed. Network simulated at the system-call level; single process.'),
"S05":(SV,'Send windows of every small size and block points at each byte of the header and around buffer borders, for every kind of answer; each run validated; completeness decided at quiescence. Network simulated at the system-call level; single process.'),
"S06":(SV,'Files of every size around the buffer borders, generated names and extensions, shrinking and growing files; content compared byte for byte through content ids; validated against FileService.tla. Network simulated at the system-call level; single process.'),
"S07":(SV,'All ranges over small files, boundary ranges over large ones, and malformed range headers; validated against the range rule in FileService.tla. Network simulated at the system-call level; single process.'),
"S08":(SV,'Histories of change and conditional request generated from VersionsGen.tla; the validators announced are learned by the specification and must never repeat for a different modification time. Network simulated at the system-call level; single process.'),
"S02":(TV,"The parser as a byte-at-a-time machine (HttpParser.tla). TLC checks it against messages composed from their elements (exactly these elements, complete with the last byte and not before); then, from one shortest input for every kind of position TLC finds (about 3,000), single bytes and endings, plus generated messages, mutations, pipelines and cuts (every place, byte by byte, random) go through the real parser, whose every callback and return value must be the machine's."),
"C19":(TV,"The four algorithms in TLA+ (words as pairs of halves), checked against published vectors; TLC shows that feeding in parts with a one-block buffer gives the digest of the whole, that the RC4 box stays a permutation and that deciphering undoes enciphering. The code's results for every length up to two blocks, border lengths, cuts around block borders, byte by byte and empty parts, keys of 1 to 300 bytes are judged by it; inputs must stay unchanged. Lengths below 2^28 bytes."),
"S09":(SV,'Directories with generated names, nested, empty, with and without index, with base_path; listing order and completeness decided by FileService.tla. Network simulated at the system-call level; single process.'),
"S10":(SV,'Path normalisation model-checked (PathProps.tla); generated paths over dots, slashes, escapes, NUL, symbolic components run on the server; anything outside shows as a forbidden content id. Network simulated at the system-call level; single process.'),
"S11":(SV,'Locations x users x credentials (right, wrong, malformed Base64, missing colon, long) x targets incl. escaped spellings; validated against Denotes in FileService.tla. Network simulated at the system-call level; single process.'),
"S12":(SV,'Generated location tables (order, prefix/suffix/exact/any patterns, handlers, base paths) x targets; first match decided by FileService.tla. Network simulated at the system-call level; single process.'),
"S13":(SV,"Histories of the design (ServerMC.tla: model checked) with malformed requests and leaving clients; malformed, oversized, truncated, vanishing and arbitrary clients next to a well-behaved one; the former may be answered and dropped in any way, the latter must be answered exactly (Server.tla, Wild); more connections than events of a turn, and fewer descriptors than connections (Limit); ASan, UBSan and a watchdog decide crashes and hangs. Network simulated at the system-call level; single process."),
"S14":(SV,'Resource gauges (descriptors, allocated bytes) taken when nobody is connected, after histories generated from the designs of the server and of the proxy (ServerMC, ProxyMC), and after each kind of request, failure, reset and half-close, at each point; the specification requires the same value every time. Network simulated at the system-call level; single process.'),
"S15":(PV,"A design of the proxy (ProxyMC.tla) is model-checked against the observable behaviour (Proxy.tla); one history of clients and backends for each of its transitions is run on the real server. Also requests of every method, version, kind of url, header list and body, every cut of a few of them, several on a connection and on several connections, pipelined, to three locations, to backends that accept little or late; what each backend receives is taken apart into messages and each must be one that Proxy.tla allows at that point. The backends are simulated connections; connecting works at once or is refused."),
"S16":(PV,"Design and generated histories as for S15, with backends that send too much, close or reset at every stage. Also responses of 48 statuses and every framing, cut at every point, read in small portions, bodies up to megabytes to clients that stop reading, backends refused, closed, reset at every byte of a response, sending junk or too much, clients leaving at each stage, several clients at once; every message, closing and quiet state is one that Proxy.tla allows. ASan and UBSan decide memory errors. The backends are simulated connections; connecting works at once or is refused."),
"S17":(SV,"Default, GIF, diagnostics and Lua handlers over generated requests, scripts (incl. failing ones) and pipelines; the diagnostics count is the specification's number of connections. Network simulated at the system-call level; single process."),
"S18":(SV,"Every kind of response and status, with and without templates, by every handler, with odd names in paths; the head of each response is given to the specification as bytes and must be well formed and delimit the body. Network simulated at the system-call level; single process."),
"S21":(SV,"The design (ServerMC.tla with encryption: nothing is taken or answered before the keys are agreed on) is model checked, safety and liveness; its histories and sequences of requests are replayed by real TLS clients (1.2 and 1.3) whose ciphertext travels in pieces of every size, next to clients that send clear text, leave or garble at each byte of the greeting and of records, change keys; what the clients decrypt is validated against Server.tla (handshake, configured certificate, nobody disturbed, gauges, termination); starts without a usable key must fail; also proxied. Network simulated at the system-call level, OpenSSL real on both sides; a socket is taken to hold the server's part of the greeting."),
"S22":(SV,"Workers.tla (making, asking, ending, awaiting; nobody left behind; everybody ends) is model checked, safety and liveness; its histories are replayed with real processes, each driven by its own part of the scenario and judged by Server.tla, the lives of all of them together by Workers.tla; 1-5 workers with random clients, signals before any system call, and 64, 65 and 255 workers. The signals which the main process sends are passed on by the harness, which refuses any other receiver. Built with HAVE_PREFORK. Network simulated at the system-call level."),
"S20":(SV,"TLC enumerates every subset of options over command line and file (46,656 configurations; 607,500 in the thorough model) and checks precedence; a sample covering every pair is started for real, options and sections in random order, and what it listens on, who answers, the index file and the templates are judged by Config.tla. Network simulated at the system-call level."),
"S19":(SV,"Termination at the end of every history of the designs (ServerMC, ProxyMC), also while requests are passed on to backends; termination signals between any two rounds of events and before every system call, with any mix of connections and unsent responses; Server.tla decides what may still happen until exit, incl. that every module is shut down. Network simulated at the system-call level; single process."),
}
NA={}
