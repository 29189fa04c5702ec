"""What every check is made of: harness sources, parts of /repo it links, level, bounds."""
CHECKS = {}


def check(cid, level, rule, bounds, parts, assumptions=(), technique="", note=""):
    CHECKS[cid] = dict(level=level, rule=rule, bounds=bounds, parts=parts, assumptions=list(assumptions),
                       technique=technique or "exhaustive bounded exploration of the real code against an independent oracle", note=note)


LIB = ["utils", "voucher"]

check("C03", "exploration",
      "every byte string / base64 text in the stated finite domains is encoded and decoded by the real code and compared with an "
      "independent RFC 4648 codec; a distinct case is a distinct (family, leading symbols) class or byte string",
      {"quick": "all byte strings of length <=2, 3-byte strings on a 256x85x52 grid, lengths 0..1199 x 4 fills with a line break at every position, "
                "all texts of length <=7 over 8 symbols, all single-byte substitutions/insertions, all truncations",
       "thorough": "all byte strings of length <=3, lengths 0..4999, all texts of length <=8 over 8 symbols"},
      [dict(name="codec", src=["checks/C03.cpp"], groups=LIB)],
      ["texts with misplaced or excess padding are only checked for memory safety"],
      "exhaustive enumeration of bounded inputs, executed on the real code against an independent RFC 4648 codec",
      "every case in the stated domains is executed; longer inputs rest on the codec working group by group")

check("C01", "exploration",
      "a case is a voucher (attribute subset and values); it is set through the public setters, serialised, the text is read by an independent strict "
      "JSON parser and compared member by member, then deserialised and compared getter by getter; distinct = distinct voucher contents",
      {"quick": "all 2^11 subsets x 3 value profiles x 2 set orders; all attribute pairs x full alphabets; all serials of <=2 symbols over 25 special symbols; "
                "serial lengths 0..139; every day of 10 boundary years; binary lengths 1..700",
       "thorough": "serials of <=3 symbols, binary lengths 1..4000"},
      [dict(name="roundtrip", src=["checks/C01.cpp"], groups=LIB)], [],
      "exhaustive enumeration of bounded voucher contents, executed on the real code against an independent JSON reader",
      "every voucher in the stated domains is executed")

check("C02", "model_checking",
      "states are attribute-store contents over the product of small value domains; every operation of the alphabet (valid, invalid, wrong-kind, NULL) is applied "
      "to the real object in every state and all observers are compared with the model; traces_validated counts serialised forms compared with the model",
      {"quick": "product domain (3 values per time/string/binary attribute, 4 assertions, 2 booleans) with the second value of low-order attributes thinned to a quarter; "
                "all operation sequences of length 3 starting with a set/clear/bad-value operation; all 64 combinations of lowest/other time fields in every time attribute",
       "thorough": "full product domain x every operation; all operation sequences of length 3"},
      [dict(name="store", src=["checks/C02.cpp"], groups=LIB)], [],
      "explicit-state exploration of the attribute store, every transition executed on the real object and compared with a model",
      "exhaustive over the stated finite value domains; the model is compared with the implementation in every state")

check("C04", "exploration",
      "every document of the stated families is read by the real deserialiser from an exact-size buffer; the verdict (accept with exactly these values / refuse / unspecified) comes "
      "from an independent strict JSON reader; distinct = distinct documents",
      {"quick": "attribute x ~40 value forms x 5 white-space styles x all partner attributes and positions; 2^11 subsets x 3 rotations x 5 styles; all truncations, all 256 substitutions of every byte, "
                "insertions, deletions, doublings, swaps of 4 base documents; all sequences of 6 tokens over 12; name/root/nesting mutations, token counts 1..300; lengths 0..399",
       "thorough": "token sequences of 7, all rotations, lengths 0..1999"},
      [dict(name="documents", src=["checks/C04.cpp"], groups=LIB,
            user={0: "unspecified", 1: "must_accept", 2: "must_refuse", 3: "value_if_accepted"})],
      ["not well-formed JSON (other than truncations), duplicate members, members next to the root and booleans written as strings or numbers are only checked for memory safety"],
      "exhaustive enumeration of a bounded document grammar and of all single edits, on the real code against an independent reader",
      "every document in the stated families is executed")

check("C20", "exploration",
      "every time / text / word of the stated domains is converted by the real code and compared with an independent calendar; distinct = texts, years and hours",
      {"quick": "every day of the years 1000..9999, every second of 4 days, all single-character edits, prefixes, suffixes and removals of 6 times, all field values 00..99, all years 0000..9999, all words of <=5 letters over 12",
       "thorough": "same"},
      [dict(name="codecs", src=["checks/C20.cpp"], groups=LIB)],
      ["days 29..31 that the month lacks, second 60/61, short or space-padded numbers and capitalised booleans are unspecified", "TZ=UTC"],
      "exhaustive enumeration of times and texts on the real code against an independent calendar",
      "the day and clock domains are covered completely; texts up to one edit")

check("C25", "exploration",
      "every combination of source length, terminator position, bound and destination size is executed on exact-size buffers under the address sanitizer; distinct = combinations",
      {"quick": "lengths and sizes 0..84 x 4 contents; hexadecimal of 0..39 bytes into 0..2n+6; all byte pairs; 23x23 element counts and sizes around the overflow limits",
       "thorough": "lengths and sizes 0..304, hexadecimal of 0..139 bytes"},
      [dict(name="helpers", src=["checks/C25.cpp"], groups=["utils"])],
      ["the content of a hexadecimal buffer for no data, and releasing by a zero-size reallocation, are unspecified"],
      "exhaustive enumeration of lengths and sizes on the real code with red zones around every buffer",
      "every combination in the stated ranges is executed")

check("C18", "model_checking",
      "states are list/array contents; every operation of the alphabet is executed after every history up to the depth on the real objects and the content is compared with a vector model in every state (validated)",
      {"quick": "all sequences of 5 operations over 9 (array list) and 12 (arrays), of 4 over 19 (key-values); all pairs of strings of <=4 symbols; single differences in lengths 1..120",
       "thorough": "sequences of 6, 6 and 5 operations; lengths to 400"},
      [dict(name="containers", src=["checks/C18.cpp"], groups=LIB)], [],
      "explicit-state exploration of operation sequences, every transition executed on the real containers and compared with a model",
      "exhaustive over all operation sequences to the stated depth")

check("C05", "exploration",
      "every combination of signer, embedded, given and trusted certificates, revocation list and list order of a universe of 8 CA and 11 leaf certificates (evil twins, cross, expired, non-CA, forged) is verified by the real code and the verdict "
      "compared with a search for a chain of real signatures; every byte of five signed messages is altered; distinct = combinations and byte positions",
      {"quick": "11 signers x 16 embedded x 7 given x 14 anchor sets x 6 revocation lists x 2 orders; 11 x 128 x 9 x 2 certificate chains; every byte of 5 messages, 9 changes in signed parts, 5 elsewhere; all cuts, removals, insertions, swaps; 24 structures; 6 keys x 3 functions",
       "thorough": "17 given sets; all 255 changes of every byte"},
      [dict(name="signatures", src=["checks/C05.cpp"], groups=LIB, user={0: "unspecified", 1: "must_accept", 2: "must_refuse"})],
      ["an issuer without a revocation list while others are given, and look-alike issuers without key identifiers (acceptance only) are unspecified",
       "ECDSA and RSA signature schemes themselves are trusted (OpenSSL)"],
      "exhaustive enumeration of bounded certificate configurations and of all single-byte alterations on the real code against an independent chain search",
      "exhaustive over the stated universe")

check("C06", "exploration",
      "every combination of pledge request attributes, authenticated serial number, signer and verification lists is given to the real functions; the decision is compared with the stated conditions and every issued request is decoded "
      "with an independent reader and compared attribute by attribute; distinct = combinations",
      {"quick": "10 serial numbers x 8 proximity certificates x 4 assertions x 5 nonces x up to 9 authenticated serial numbers; 9 signers x 7 trust sets x 3 certificate lists x 2; 12 missing or unusable arguments; 11 x 5 x 3 x 2 x 4 pledge requests",
       "thorough": "all 9 authenticated serial numbers for every attribute combination"},
      [dict(name="requests", src=["checks/C06.cpp"], groups=LIB, user={0: "unspecified", 1: "must_issue", 2: "must_refuse"})],
      ["chains through certificates that are given but not embedded are unspecified", "the signature schemes are trusted (OpenSSL)"],
      "exhaustive enumeration of bounded request contents, signers and trust sets on the real code against the stated decision table",
      "exhaustive over the stated alphabets")

check("C07", "exploration",
      "every combination of registrar request, pledge request inside it, their signers, certificate lists and callback answer is given to the real function; the decision, the callback's arguments and the decoded voucher are compared with the stated conditions; distinct = combinations",
      {"quick": "11 x 11 serial numbers x 6 x 3 nonces; 8 registrar x 8 pledge request forms (forged, resigned, nested, unwrapped, tampered) x 6 x 6 trust sets; 4 x 4 certificate lists x 4; 9 callback answers x 12 pinned values x 6 nonces; 13 unusable arguments",
       "thorough": "all attribute combinations x 4 sets of other attributes"},
      [dict(name="masa", src=["checks/C07.cpp"], groups=LIB, user={0: "unspecified", 1: "must_issue", 2: "must_refuse"})],
      ["the signature schemes are trusted (OpenSSL)"],
      "exhaustive enumeration of bounded request pairs, signers, trust sets and callback answers on the real code against the stated decision table",
      "exhaustive over the stated alphabets")

check("C08", "exploration",
      "every combination of voucher attributes, pledge serial number and nonce, voucher signer, trust sets and relation of TLS and pinned certificate is given to the real function; the decision and the outputs are compared with the stated conditions; distinct = combinations",
      {"quick": "9 x 8 serial numbers x 8 x 9 nonces x 4 attribute sets (a third of the combinations of two other serial numbers); 13 TLS x 12 pinned certificates x 6 domain stores; 9 signers x 8 trust sets x 4 lists x 2; two bit changes of every byte of the pinned certificate; every pair of 44 look-alike serial numbers and of 26 look-alike nonces",
       "thorough": "all combinations, every bit of the pinned certificate"},
      [dict(name="pledge", src=["checks/C08.cpp"], groups=LIB, user={0: "unspecified", 1: "must_accept", 2: "must_refuse"})],
      ["with a domain store, refusal is required when the chain does not end in it and acceptance only when it holds the pinned root; an empty store is unspecified", "bytes after the end of a certificate are unspecified", "the signature schemes are trusted (OpenSSL)"],
      "exhaustive enumeration of bounded voucher contents, signers and certificate relations on the real code against the stated decision table",
      "exhaustive over the stated alphabets")

check("C09", "model_checking",
      "a state is the progress of every run (request, registrar request, voucher, bound); in every reachable state the attacker delivers every recorded or self-made message to every registrar (under every serial number), the MASA and every pledge, "
      "with the real functions; every outcome is compared with the abstract protocol (validated) and the binding is checked on each acceptance",
      {"quick": "all multisets of 2 and 3 runs of 2 pledges with 3 registrars (two of one domain) or an impostor, all interleavings; each useless delivery once per configuration; 2 runs also next to an enrolment of the attacker's own genuine device with a reused nonce; undisturbed runs with every combination of EC, RSA and P-384 keys of manufacturer, pledge, domain, registrar and MASA and equally many (0 to 2) intermediates, and every combination of intermediates with 9 combinations of keys, each step also against a root of the same name with another key",
       "thorough": "3 runs, with and without the attacker's device, every delivery in every state; undisturbed runs with all combinations of keys and intermediates, with and without nonce and embedded roots"},
      [dict(name="protocol", src=["checks/C09.cpp"], groups=LIB)],
      ["the attacker has no key of the manufacturer, the registrars or the MASA and cannot take over an authenticated TLS connection", "the signature schemes are trusted (OpenSSL)"],
      "explicit-state exploration of interleaved protocol runs with a recording attacker, every transition executed on the real code and compared with the model",
      "all interleavings and deliveries of the stated number of runs")

SRV = ["utils", "voucher", "brski_c", "servers_off"]

check("C10", "exploration",
      "the real request handler is called with every combination of request body, client certificate, own file defect and MASA outcome; status, headers, body and the request sent to the MASA (recorded by a stand-in for the HTTPS client) "
      "are compared with the stated table; distinct = combinations",
      {"quick": "21 bodies x 5 client certificates x 3 MASA outcomes; 130 MASA outcomes (26 statuses x 5 bodies) x 4 valid bodies; 90 file and configuration defects x 3 bodies x 3 certificates x 3 outcomes; all sequences of 3 of 5 requests",
       "thorough": "same"},
      [dict(name="registrar", src=["checks/C10.cpp"], groups=SRV)],
      ["with several defects at once any of the matching statuses may be answered", "a signing key that does not belong to the certificate may be answered with 400 or 500", "TZ=UTC"],
      "exhaustive enumeration of bounded requests, configurations and MASA outcomes on the real handler against the stated answer table",
      "exhaustive over the stated alphabets")

check("C11", "exploration",
      "every history of requests over the routes of both servers is executed on one pair of server contexts; every answer is compared with the answer the request must get on a fresh server (status, type, decoded voucher, certificate or text, and the request passed "
      "to the MASA); memory and descriptors are compared before and after; distinct = histories and configurations",
      {"quick": "all histories of 3 of 10 requests, all a-b-a histories of 32 requests, 40 repetitions of each (alone and between failures), 84 unusable MASA settings x 4 requests between good ones, all orders of 12 voucher settings",
       "thorough": "all histories of 4, 300 repetitions"},
      [dict(name="histories", src=["checks/C11.cpp"], groups=SRV)],
      ["the HTTPS connection to the MASA is replaced by a stand-in", "TZ=UTC"],
      "exhaustive enumeration of request histories to a depth on the real handlers against the answer table of a fresh server",
      "all histories to the stated depth over the stated requests")

check("C14", "exploration",
      "the real enrolment handler is called with every combination of certificate, CA, client and text form, with bodies that hold no certificate, with every kind of unusable CA file and with every byte of a certificate changed; the answer is compared field by field "
      "with the submitted certificate, its signature verified with the CA's key, and the log compared with the line expected; distinct = combinations",
      {"quick": "23 certificates x 4 CAs x 4 clients x 4 text forms; 16 other bodies; 63 CA defects; 6 changes of every byte; all sequences of 4 of 5 enrolments",
       "thorough": "all 255 changes of every byte; sequences of 5"},
      [dict(name="enrolment", src=["checks/C14.cpp"], groups=SRV)],
      ["serial numbers above 64 bits are not required to be logged exactly", "bytes after the certificate are unspecified", "signature schemes are trusted (OpenSSL)"],
      "exhaustive enumeration of bounded certificates, CAs, clients and histories on the real handler against an independent reading of certificate and log",
      "exhaustive over the stated alphabets")

check("C15", "exploration",
      "every configuration file of the stated families is written, loaded by the real code and every member of the three structures is compared with what was written; lists of certificate files are loaded and compared with the certificates; distinct = files",
      {"quick": "all subsets of the settings of each section x 3 contents of the others; 34 settings x 30 values x 4 styles x 2; 120 value lengths; a quarter of the port numbers; 1152 layouts; all lists of up to 4 values over 4 for each of 9 list settings x 2; "
                "the file cut at every byte; all lists of up to 3 of 8 certificate files",
       "thorough": "4 styles, lengths 1..480, all port numbers, lists of 5, 4 certificate files"},
      [dict(name="config", src=["checks/C15.cpp"], groups=["utils", "voucher", "brski_c"])],
      ["lines above 490 characters (a limit of the INI library), leading and trailing blanks of values, duplicate scalar settings and sections, port texts that are not numbers up to 65535, and paths that are not regular files are only checked for memory safety"],
      "exhaustive enumeration of bounded configuration files on the real loader, compared with what was written",
      "exhaustive over the stated families")

check("C19", "exploration",
      "every object is written by the real code to a real file and read back by the code and by an independent reader; writing is repeated with the disk full after every number of bytes (file size limit) and with every single file operation failing (interposed stdio); "
      "reading is repeated for every truncation and every changed byte and compared with an independent reading; distinct = objects, positions and faults",
      {"quick": "22 objects x 4 targets; 7 objects x every byte limit (every 13th for files above 6 kB) x 2; every failing file operation of writing and reading x 22 objects x 2; unusable targets and objects; all truncations; 10 changes of every byte of 10 objects; all sequences of 4 of 6 operations",
       "thorough": "22 objects x every byte limit (every 7th above 6 kB), all 255 changes of every byte, sequences of 5"},
      [dict(name="files", src=["checks/C19.cpp"], groups=LIB)],
      ["encrypted keys are not read", "a changed byte that leaves a well-formed object cannot be recognised by reading; the object the file now holds must be returned"],
      "exhaustive enumeration of crash points, file operation faults and single-byte damage on the real code against an independent reader",
      "exhaustive over the stated objects and positions")

check("C24", "exploration",
      "every combination of serial number, validity, names, constraints, key and certificate kind of a finite alphabet is given to the real generator; the certificate is read with an independent reader and compared field by field, and its data are read back by the code; "
      "generated keys are checked as key pairs; distinct = requests",
      {"quick": "17 serial numbers x 21 validities x 10 constraints (a quarter of it with RSA); 22 x 22 names x 2 kinds; 8 keys x 2 kinds x 8 defects; 2 x 13 x 13 certificates signed by 4 CAs; 16 RSA sizes, 320 EC keys; every truncation of keys and a certificate",
       "thorough": "all combinations with RSA, three name pairs each"},
      [dict(name="generate", src=["checks/C24.cpp"], groups=LIB)],
      ["a name entry that is not valid UTF-8 is unspecified", "key generation itself is trusted (OpenSSL)"],
      "exhaustive enumeration of bounded certificate requests on the real generator against an independent reader",
      "exhaustive over the stated alphabets")

from tools.faultwrap import names as _fault_names  # noqa: E402

check("C16", "exploration",
      "every operation of the public interface is run with each of its allocations and fallible library calls failing in turn (alone, and together with all later ones, with each documented failure value), and run again on the same objects afterwards; "
      "the result is compared with that of the undisturbed run through independent readers; distinct = (operation, call, value, mode)",
      {"quick": "all operations, every failing call", "thorough": "the same"},
      [dict(name="faults", src=["checks/C16.cpp"], groups=SRV, wrap=_fault_names())],
      ["allocations inside OpenSSL and the C++ library are not made to fail one by one; OpenSSL's calls fail as a whole", "a lost line of the enrolment log is unspecified when resources run out", "minIni reports no failure when it reads single settings"],
      "exhaustive enumeration of single and permanent resource failures on the real code",
      "every wrapped call of every operation on its fixed inputs")

check("C21", "model_checking",
      "a state is a history of connections, a request, or a set of settings; the real servers run in processes of their own and are driven over loopback TLS by a raw client; each answer is compared with the route table, with what the same handler "
      "answers when it is called directly, and with the rules every answer follows (validated); transitions are requests and connections",
      {"quick": "16 methods x all documented paths and their single edits (GET and POST); 16 x 5 x 2 x 8 responses for 6 methods; 18 bodies in up to 9 framings and every two-piece split of a request; 81 header pairs; 11 client certificates x 2 TLS versions x 5 client CA files; "
                "all histories of up to 2 of 61 connection events on both servers; 7 to 10 stuck connections of 9 kinds; all interleavings of two requests in 3 pieces; all sequences of up to 4 of 6 requests on one connection, one by one and at once; all start settings with up to 2 defects; memory growth of every event; 18 set-ups of the whole protocol (RSA and P-384 keys, certificates issued through intermediate CAs)",
       "thorough": "all edits with every printable character for every method; histories of up to 3 events; up to 16 stuck connections; all splits into three pieces; 4 pieces interleaved; sequences of up to 5; start settings with up to 4 defects"},
      [dict(name="servers", src=["checks/C21.cpp"], groups=["utils", "voucher", "brski_c", "brski_cpp", "http"], wrap=["fopen"], user={0: "whole protocol failed", 1: "whole protocol succeeded"})],
      ["the thread schedule inside the servers is the operating system's (the handlers' schedules are explored in C12 and C13)", "percent-encoded forms of a documented path, and queries and fragments after it, may be served or not", "HEAD of a GET route may be served or not; CONNECT, TRACE, PRI and unknown methods may be refused with 400, 404, 405 or 501",
       "a malformed request may be answered with an error or not at all", "client addresses other than loopback"],
      "exhaustive enumeration of requests, framings and connection histories up to a bound on the real servers, compared with a model of the routes",
      "every request and history over the stated alphabets")

check("C26", "model_checking",
      "a state is a request with the trust it is given and what the server does with it; the real client runs against a scripted TLS server over loopback for every one; what the server received and what the client reports are compared with the script (validated); "
      "transitions are requests",
      {"quick": "4 paths x 3 types x 11 bodies x 2 hosts x 2 entry points x 2 TLS versions; 13 trust settings x 9 server certificates x 5 system trusts; 29 status lines x 6 framings x 10 bodies x 4 ends; 4 answers cut off at every byte in 3 ways and in two pieces at every byte; 31 malformed answers and broken transports; 49 client credentials; pairs of requests",
       "thorough": "also every split into three pieces"},
      [dict(name="client", src=["checks/C26.cpp"], groups=["utils", "voucher", "brski_c", "brski_cpp", "http"], user={0: "failed", 1: "answered"})],
      ["TLS itself is trusted (OpenSSL)", "an answer that ends with the connection and without TLS's notice, answers overtaken by a reset, contradictory lengths and unknown encodings may be reported or refused", "a pinned certificate that is no root of the server's chain may be accepted or refused if it is the server's own or its issuer's"],
      "exhaustive enumeration of requests, trust settings and server behaviours up to a bound on the real client, compared with the script",
      "every combination over the stated alphabets")

check("C22", "model_checking",
      "a state is a combination of settings and registrar answers that deviates from a good enrolment in at most k places; the real client runs against every one, with the HTTPS client replaced by a recorder; "
      "the requests it sends, in their order, its verdict and what it hands back are compared with the three-step protocol (validated); transitions are the exchanges",
      {"quick": "31 settings, 7 + 18 + 18 statuses, 3 + 6 server certificates, 3 + 31 + 9 bodies; all combinations with up to 2 deviations", "thorough": "up to 3 deviations"},
      [dict(name="client", src=["checks/C22.cpp"], groups=SRV, user={0: "failed", 1: "enrolled"})],
      ["success statuses other than 200 and a pinned end-entity certificate are unspecified", "the signature schemes are trusted (OpenSSL)", "the real HTTPS client is checked in C21"],
      "exhaustive enumeration of registrar answers and settings up to a deviation bound against the real client, compared with the protocol model",
      "every combination of up to k deviations over the stated alphabets")

check("C23", "model_checking",
      "a state is a command line with its files, streams and outcome of the network that deviates from an ordinary one in at most k places; the real main runs in a child for each; exit status, standard output, files, requests and server starts "
      "are compared with the documented behaviour (validated); transitions are program runs",
      {"quick": "13 command words; 11 configurations, 12 input files, 21 outputs (path lengths around the buffer boundary), 3 states of standard output, 14 standard inputs (sizes around the limit), 12 ports, 4 addresses, 4 network outcomes, 12 option forms; every single deviation, and all pairs among those that matter to the command",
       "thorough": "all pairs, and all triples among those that matter to the command"},
      [dict(name="cli", src=["checks/C23.cpp"], groups=["utils", "voucher", "brski_c", "brski_cpp", "main"], wrap=["main"], user={0: "failed", 1: "succeeded"})],
      ["the network is replaced below the HTTP client and server interface (the real ones are checked in C21)", "more input than 4096 bytes, port 0, extra operands and a call without arguments may succeed or fail", "output of a failed command is unspecified once writing began"],
      "exhaustive enumeration of command lines, files, streams and network outcomes up to a deviation bound on the real program",
      "every combination of up to k deviations over the stated alphabets")

TSAN = ["-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-builtin", "-fno-omit-frame-pointer"]
SCHED_WRAP = ("localtime gmtime asctime ctime strtok rand srand setlocale time gettimeofday clock_gettime fopen fclose fflush fwrite fputs fputc putc vfprintf fprintf "
              "vdprintf dprintf write rename unlink vsnprintf snprintf vsprintf sprintf strftime memcpy memmove memset memcmp strcpy strncpy strcat strlen strcmp strdup "
              "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock "
              "pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split()
SCHED_USER = {0: "schedules", 1: "schedules_longer_than_measured", 2: "schedules_that_preempted"}


def sched_part(name, src, groups, more=(), **kw):
    return dict(name=name, src=[src], groups=groups, san=TSAN, hsan=["-fsanitize=address", "-fno-omit-frame-pointer"], flags=["-DSCHED"], wrap=SCHED_WRAP + list(more), user=SCHED_USER, **kw)


check("C17", "model_checking",
      "states are the log settings (level, silence, position, colours, lock, file); every operation in every state and every history of operations is followed by log calls whose output, lock calls and error code are compared with the model; "
      "for logging threads a state is an order of the lines and a transition a scheduling point, every schedule executed on the real code; traces_validated counts lines and schedules compared",
      {"quick": "6 levels x 2^4 settings x 4 file states x (18 operations + none) x 5 levels x 8 error codes x 5 texts; all histories of 3 operations; 4 thread scenarios: every start order x one preemption at every function boundary, library call and conflicting access, and every pair of preemptions at lock, file and conflicting accesses",
       "thorough": "histories of 4 operations; three preemptions"},
      [dict(name="settings", src=["checks/C17.cpp"], groups=["utils"]), sched_part("schedules", "checks/C17.cpp", ["utils"])],
      ["sequentially consistent memory", "the settings are not changed while threads log", "the C library's stream functions are atomic for one call"],
      "explicit-state exploration of the log settings and stateless exploration of all bounded-preemption schedules of logging threads, on the real code",
      "exhaustive over the settings and, within the preemption bound, over the schedules")

check("C12", "model_checking",
      "a state is a (scenario, schedule, outcome); a transition is a scheduling point of an executed schedule; every schedule runs the real request handler in real threads and each answer is compared with the answer to the same request alone (traces_validated: answers compared)",
      {"quick": "9 scenarios of 2 or 3 concurrent requests (valid, forged, unreadable, other registrar, other server, with logging): every start order x one preemption at every function boundary, library call and conflicting access; pairs of preemptions at conflicting accesses, clock, lock and file operations in the main scenario",
       "thorough": "three preemptions in two scenarios, two in the others"},
      [sched_part("schedules", "checks/C12.cpp", SRV, more=["free", "realloc"])],
      ["sequentially consistent memory", "OpenSSL is thread safe and takes no part in preemption", "conflicting memory is the memory that conflicts in the runs without and 40 runs with a preemption"],
      "stateless model checking: all bounded-preemption schedules of the real handlers under a controlled scheduler",
      "exhaustive within the preemption bound")

check("C13", "model_checking",
      "a state is a (scenario, schedule, outcome); a transition is a scheduling point of an executed schedule; every schedule runs the real request handlers in real threads; each answer, the request sent to the MASA (with the creation time of that thread's clock) and the "
      "enrolment log are compared with those of the same requests alone (traces_validated: answers compared)",
      {"quick": "11 scenarios of 2 or 3 concurrent requests (voucher requests, enrolments, forged, unreadable, refused by the MASA, two registrars, status, with logging): every start order x one preemption at every function entry, library call, MASA exchange and conflicting access; pairs of preemptions at conflicting accesses, clock, lock and file operations in three scenarios",
       "thorough": "function exits too; two or three preemptions"},
      [sched_part("schedules", "checks/C13.cpp", SRV, more=["free", "realloc"])],
      ["sequentially consistent memory", "OpenSSL is thread safe and takes no part in preemption", "the C library's stream functions are atomic for one call", "conflicting memory is the memory that conflicts in the runs without and 40 runs with a preemption"],
      "stateless model checking: all bounded-preemption schedules of the real handlers under a controlled scheduler",
      "exhaustive within the preemption bound")

# families that several checks share, added to the bounds stated above
_SZ = "lengths and sizes around every power of two and ten, up to 128 KiB (quick) or 1 MiB (thorough; size classes), of "
_SIZES = {"C01": "every textual and binary attribute", "C03": "the encoded bytes", "C04": "every attribute in a document", "C05": "the signed content, altered at its ends and middle; and up to 257 certificates, trust anchors and signer certificates with the needed one in 3 places or left out",
          "C06": "nonce, issuer and server certificate, equal or differing in one place (serial numbers: every length to 127)", "C07": "nonce and pinned certificate (serial numbers: every length to 127)", "C08": "the nonce, equal or differing in one place (serial numbers: every length to 127)",
          "C10": "the MASA's answer and the pledge's request", "C14": "the certificate (serial numbers in the log: every length to 64)", "C17": "the text", "C18": "lists and of stored objects", "C19": "certificates and signed messages", "C21": "request bodies in all framings",
          "C22": "nonce and issued certificate (serial numbers: every length to 127)", "C25": "strings and blocks", "C26": "request and answer bodies"}
for _c, _t in _SIZES.items():
    CHECKS[_c]["bounds"]["quick"] += "; " + _SZ + _t
CHECKS["C06"]["bounds"]["quick"] += "; every pair of 44 look-alike serial numbers (case, leading zeros, signs, blanks, number forms, accents) and 8 forms of the TLS certificate (same key and names, PEM, base64, digest, ...)"
CHECKS["C07"]["bounds"]["quick"] += "; every pair of 44 look-alike serial numbers"
CHECKS["C10"]["bounds"]["quick"] += "; 23 client certificates that write the serial number unusually (string types, zero bytes, look-alikes, other parts of the name, other keys) with every request"
CHECKS["C14"]["bounds"]["quick"] += "; CA certificates that are not self-signed"
CHECKS["C24"]["bounds"]["quick"] += "; CA certificates that are not self-signed"
CHECKS["C26"]["bounds"]["quick"] += "; remarks of those lengths in front of the trusted CA"
for _c in ("C01", "C02", "C05", "C19", "C20", "C24"):
    CHECKS[_c]["bounds"]["quick"] += "; every function with each of its arguments missing"
CHECKS["C21"]["bounds"]["quick"] += "; every sequence of 2 requests (of 3 of the kinds of answers, for the server with routes of our own) on one connection"
