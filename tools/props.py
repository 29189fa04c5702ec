#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


V = "src/voucher/"
B = "src/brski/"

prop("C01", "Voucher text round trip",
     "Serialising a voucher gives one well-formed JSON document of the ietf-voucher model that holds exactly the attributes that were set, each under its own "
     "name and in its prescribed textual form, whatever characters and bytes the values contain. Reading that text back gives a voucher in which every attribute "
     "that was set has the same value and every other attribute is still empty.",
     ["inputs"], "for all subsets of the eleven attributes, all set orders and all values each attribute accepts (any string, any non-empty byte string, any UTC second of the years 1000..9999)",
     "The tests serialise one voucher with one value per attribute; escaping, length and date boundaries and attribute subsets are never varied.",
     [V + "voucher.c", V + "serialize.c", V + "keyvalue.c"],
     [("serialize_voucher / deserialize_voucher", V + "voucher.c"), ("escaping, base64, time and bool codecs", V + "serialize.c")],
     observe=["serialize_voucher", "deserialize_voucher", "get_attr_*_voucher"])

prop("C02", "Voucher attributes behave as independent cells",
     "After any sequence of set, replace and clear operations every voucher attribute reads back as the value last successfully stored in it, or as empty, "
     "independently of the other attributes and of what the caller later does with its own buffers. An operation with a wrong kind, a missing or an invalid value "
     "reports failure and changes nothing, and no sequence of operations leaks or corrupts memory.",
     ["histories", "inputs"], "for all sequences of set/replace/clear operations over all attributes, valid and invalid values",
     "The tests set each attribute once on a fresh object; replacement, interleaving with clears and failed operations between them are histories they do not enumerate.",
     [V + "voucher.c", V + "array.c"],
     [("setters, getters, clear", V + "voucher.c"), ("copy_binary_array", V + "array.c")],
     state=[("struct Voucher", "value of each attribute", V + "voucher.c")], observe=["get_attr_*_voucher", "is_attr_voucher_nonempty", "serialize_voucher"])

prop("C03", "Base64 is exact in both directions",
     "Encoding any byte string gives its canonical RFC 4648 text and decoding that text, with or without line breaks or padding, gives the same bytes and "
     "length back. Text whose symbols do not make up a whole number of bytes, or without any, is refused without a result, and no text makes the decoder touch memory outside it.",
     ["inputs"], "for all byte strings and all texts of any length",
     "The test encodes and decodes one string; boundary lengths, padding classes, every symbol position and bad text are not sampled.",
     [V + "serialize.c"], [("serialize_array2base64str / serialize_base64str2array", V + "serialize.c")],
     observe=["serialize_array2base64str", "serialize_base64str2array"])

prop("C04", "Voucher documents are read exactly or refused",
     "Reading any byte string as a voucher either refuses it or gives a voucher whose attributes are exactly the ones the document states, without reading past the "
     "given length, crashing, hanging or leaking. A well-formed voucher document is accepted with any white space and any member order; one that is cut short, or has an "
     "unknown attribute or a value of the wrong type or form, is refused.",
     ["inputs"], "for all byte strings, in particular all documents, truncations and mutations of documents of the voucher grammar",
     "The tests read three fixed documents; the input space of an untrusted parser is exactly what samples cannot cover.",
     [V + "voucher.c", V + "serialize.c"], [("deserialize_voucher", V + "voucher.c"), ("json token walk", V + "serialize.c")],
     observe=["deserialize_voucher"])

prop("C05", "Only intact, trusted signatures yield a voucher",
     "A signed voucher is accepted, yielding exactly the voucher and its signers' certificates, when it is intact and each signer's certificate chains, "
     "signature by signature and within validity, through the embedded certificates to one of the given self-signed trust anchors and is not on a revocation list supplied with them. "
     "It is refused when the content, signature or signed attributes were altered in any way, when a signer has no such chain, or when the input is not a signed voucher; "
     "with no list of trust anchors at all only the signer's chain is left unchecked.",
     ["inputs", "configurations"], "for all key types, all positions of a modification, all combinations of signer, intermediate, embedded and trusted certificates and revocation lists",
     "The tests verify one chain that is right and one that is wrong; names can match where signatures do not, and every byte of the structure can be altered.",
     [V + "crypto_ossl.c", V + "voucher.c"],
     [("crypto_sign_cms / crypto_verify_cms", V + "crypto_ossl.c"), ("crypto_verify_cert", V + "crypto_ossl.c"), ("sign_cms_voucher / verify_cms_voucher", V + "voucher.c")],
     observe=["verify_cms_voucher", "crypto_verify_cms", "crypto_verify_cert"])

prop("C06", "Registrar requests are built only from checked pledge requests",
     "A registrar voucher request is issued only for a pledge request whose signature verifies against the given certificates, whose serial number equals that of the "
     "authenticated pledge certificate, whose proximity certificate equals the registrar's own and whose assertion is proximity. The issued request is signed by the "
     "registrar and holds exactly the given creation time, that serial number, the given issuer, the pledge's nonce if there was one, and the unaltered pledge request.",
     ["inputs", "configurations"], "for all pledge requests (every attribute absent, equal, different, prefix, longer), all signers and verification lists",
     "The test exercises one accepted request; each check must hold for every combination of absent and near-equal values.",
     [V + "request.c"], [("sign_voucher_request", V + "request.c"), ("sign_pledge_voucher_request", V + "request.c")],
     observe=["sign_pledge_voucher_request", "sign_voucher_request", "decoded content of the issued request"])

prop("C07", "MASA vouchers are issued only for consistent requests",
     "The MASA issues a voucher only if the registrar request and the pledge request inside it each verify against their own certificate lists, both state the same serial "
     "number, and the owner callback grants that serial number a pinned certificate. The voucher is signed by the MASA and holds exactly that serial number, the granted "
     "pinned certificate, the proximity assertion, the configured expiry, no revocation checks, and the registrar request's nonce if there was one.",
     ["inputs", "configurations"], "for all pairs of registrar and pledge requests, all signers, verification lists and callback answers",
     "The test exercises one accepted pair; mixed, stripped, resigned or nested requests are combinations no sample covers.",
     [V + "request.c"], [("sign_masa_pledge_voucher", V + "request.c")], observe=["sign_masa_pledge_voucher", "arguments of the callback", "decoded content of the voucher"])

prop("C08", "Pledges accept only vouchers meant for them and their registrar",
     "A pledge accepts a voucher only if its signature verifies against the given certificates, its serial number is the pledge's, its nonce equals the pledge's nonce "
     "whenever the pledge sent one, it has a pinned domain certificate, and the registrar's TLS certificate is the pinned certificate or carries its valid signature "
     "(and goes back to one of the domain certificates the pledge trusts, if it was given any). On acceptance the pinned certificate handed back is exactly the one in the voucher; on refusal none is handed back.",
     ["inputs", "configurations"], "for all vouchers (each attribute absent, equal, different, prefix, longer), all signers and all relations of TLS and pinned certificate",
     "The test accepts one voucher; the refusals, alone and combined, and forged same-name certificates are not enumerated.",
     [V + "request.c", V + "crypto_ossl.c"], [("verify_masa_pledge_voucher", V + "request.c"), ("crypto_verify_cert", V + "crypto_ossl.c")],
     observe=["verify_masa_pledge_voucher"])

prop("C09", "End to end, a pledge is bound only to the registrar it spoke to",
     "However an attacker on the path records, replays, mixes, drops or re-wraps the messages of several runs between pledges, registrars and the MASA, a pledge that sends "
     "a fresh nonce ends bound only to a registrar that received that pledge's current request, through a voucher the MASA issued for exactly that request. With no interference every run completes.",
     ["histories", "schedules"], "for all interleavings of runs and all attacker choices of which recorded message to deliver where, up to a bound",
     "No test runs two sessions or delivers a message to the wrong party; the property is about histories of messages.",
     [V + "request.c"], [("three message functions and their checks", V + "request.c")],
     state=[("nonce, serial number, proximity certificate", "what ties the messages of one run together", V + "request.c")],
     observe=["sign_voucher_request", "sign_masa_pledge_voucher", "verify_masa_pledge_voucher"])

prop("C10", "Registrar answers report exactly what happened",
     "The registrar answers a voucher request with success and the MASA's voucher, unchanged and with the voucher content type, exactly when the pledge's request is valid and the MASA answered with success. "
     "It answers 502 with an explanatory text when the MASA is unreachable or refuses, 500 when its own files or configuration are unusable, and 400 for a bad client certificate or pledge request, and "
     "contacts the MASA, at the configured address with its own TLS identity, only for valid requests.",
     ["inputs", "configurations", "fault_sequences"], "for all request bodies, client certificates, configuration file defects and MASA outcomes (failure, every status class, bodies)",
     "No test calls the request handlers at all.",
     [B + "registrar/registrar_api.cpp"], [("registrar_requestvoucher", B + "registrar/registrar_api.cpp")], observe=["status, headers and body of the answer", "requests to the MASA"])

prop("C11", "MASA and registrar answers do not depend on earlier requests",
     "The answer to a request is determined by that request, the client certificate and the configuration: after any history of valid, malformed and refused requests to any of the routes "
     "it is the same as on a fresh server. Failed requests leave no leaked or dangling memory behind.",
     ["histories"], "for all sequences of requests over all routes of both servers up to a bound",
     "No test calls the request handlers at all, let alone sequences of them.",
     [B + "masa/masa_api.cpp", B + "registrar/registrar_api.cpp"], [("request handlers and their shared contexts", B + "masa/masa_api.cpp")],
     state=[("MasaContext, RegistrarContext", "shared by all requests", B + "masa/masa_config.h")], observe=["status, headers and body of every answer"])

prop("C12", "Concurrent voucher requests do not interfere",
     "When several voucher requests are served at the same time, each gets the answer it would get alone, including the pinned certificate and the nonce of its own request, under every "
     "interleaving of their steps. No interleaving crashes the server or corrupts its memory.",
     ["schedules"], "for all interleavings, up to a preemption bound, of two or three concurrent requests to the MASA",
     "No test runs two threads; a request is short enough that stress runs rarely overlap at the critical points.",
     [B + "masa/masa_api.cpp", V + "request.c"], [("per-request state of masa_requestvoucher", B + "masa/masa_api.cpp")],
     state=[("MasaContext", "shared by the server threads", B + "masa/masa_config.h")], observe=["answers of concurrently called handlers"])

prop("C13", "Concurrent registrar requests and time stamps do not interfere",
     "When several requests are served by the registrar at the same time, each gets the answer it would get alone, its creation time is the time of that request, and the enrolment log "
     "gets exactly one complete, unmixed line per enrolment, under every interleaving of their steps.",
     ["schedules"], "for all interleavings, up to a preemption bound, of two or three concurrent registrar requests",
     "No test runs two threads.",
     [B + "registrar/registrar_api.cpp", V + "serialize.c", "src/utils/log.c"], [("registrar handlers", B + "registrar/registrar_api.cpp"), ("current time", V + "serialize.c")],
     state=[("RegistrarContext, enrolment log", "shared by the server threads", B + "registrar/registrar_config.h")], observe=["answers, MASA requests and the enrolment log"])

prop("C14", "Enrolment returns a correct certificate and logs it",
     "Enrolment succeeds exactly for a body holding one certificate, when the registrar's CA certificate and key are usable; it returns that certificate with its subject, serial number, public key, validity and "
     "extensions unchanged, issued in the CA's name with a signature that verifies with the CA's key. Each success appends exactly one line to the enrolment log with the time, "
     "the serial numbers of the client's and the issued certificate, and a failure appends nothing.",
     ["inputs", "histories", "configurations"], "for all bodies, key types, certificate shapes, CA defects, client certificates and sequences of enrolments",
     "The tests sign one certificate with one CA and never call the handler.",
     [B + "registrar/registrar_api.cpp", V + "crypto_ossl.c"], [("registrar_est_simpleenroll, save_to_log", B + "registrar/registrar_api.cpp"), ("crypto_sign_cert", V + "crypto_ossl.c")],
     state=[("enrolment log", "one line per issued certificate", B + "registrar/registrar_api.cpp")], observe=["answer body", "log file"])

prop("C15", "Configuration is loaded exactly as written",
     "Loading a configuration gives every setting the value written for it in its section (a repeated certificate list setting all its values, in order), leaves absent settings unset (an absent bind address is 0.0.0.0), and never lets a setting of one section "
     "influence another, however the file is laid out. A file that does not exist is refused, and so is a certificate list with a missing or unusable file; a refusal leaves nothing behind, and a release frees everything once.",
     ["configurations"], "for all subsets of settings per section, value shapes, numeric boundary values and missing files",
     "The tests load two fixed files; subsets, boundaries and failures are not enumerated.",
     [B + "config.c"], [("load_*_config / free_*_config", B + "config.c")], observe=["loaded configuration structures"])

prop("C16", "Running out of resources is a clean failure",
     "Whichever single memory allocation or library call fails during any public operation, the operation either reports failure or succeeds with the right result; it never crashes, corrupts memory, "
     "returns a wrong or partial result as success, or leaves the objects it was given unusable.",
     ["fault_sequences"], "for every operation and every position of a failing allocation or library call in it",
     "Tests cannot make the n-th allocation of an operation fail for every n.",
     [V + "array.c", V + "keyvalue.c", V + "voucher.c", V + "serialize.c", V + "crypto_ossl.c", V + "request.c", B + "config.c", B + "pledge/pledge_utils.c", B + "registrar/registrar_api.cpp", B + "masa/masa_api.cpp"],
     [("error paths of every operation", V)], observe=["results, address sanitizer"])

prop("C17", "The log shows each enabled message once, whole",
     "A message is written, on one complete line with its level, source position, text and, for system errors, the error string, exactly when its level passes the configured level and the log is not silenced; "
     "to the log file if one is open, otherwise to standard error. The configured lock is taken and released once around every line, so that lines of concurrent threads never mix, and logging a system error preserves the caller's error code.",
     ["schedules", "histories", "inputs"], "for all settings, levels, message lengths and interleavings of logging threads",
     "The tests do not check any log output.",
     ["src/utils/log.c"], [("log_levels, log_set_lock, log_open_file", "src/utils/log.c")], state=[("log settings", "level, quiet, colour, lock, file", "src/utils/log.c")], observe=["standard error", "log file", "lock callback"])

prop("C18", "Lists and arrays keep exactly what was stored",
     "A binary array or list of arrays, buffers or key-value pairs holds, after any sequence of operations, exactly the elements successfully added, in order, as copies where a copy is promised; "
     "comparison is true exactly for equal contents. Releasing any of them releases each element exactly once.",
     ["histories", "inputs"], "for all operation sequences up to a bound over arrays and lists, with empty, missing and large values",
     "The tests push two or three elements once.",
     [V + "array.c", V + "array.h", V + "keyvalue.c"], [("array, list and key-value operations", V + "array.c")], observe=["contents of the lists"])

prop("C19", "Certificate, key and voucher files are faithful and failures reported",
     "What is written to a certificate, key or signed-voucher file reads back as the same bytes, and the file is readable by standard tools. An unusable object is refused and leaves an existing file as it was. A write that could not be completed, for whatever reason and at whatever byte, is reported as failure, "
     "and reading a missing, truncated or damaged file is refused without a result.",
     ["crash_points", "inputs", "fault_sequences"], "for all key types and objects, every byte position at which writing stops, every truncation and every byte changed",
     "The tests write and read one good file of each kind.",
     [V + "crypto_ossl.c"], [("certbuf_to_file, keybuf_to_file, cmsbuf_to_file and their readers", V + "crypto_ossl.c")], observe=["return values and file contents"])

prop("C20", "Times and booleans are read and written exactly",
     "Every UTC second of the years 1000 to 9999 is written as YYYY-MM-DDThh:mm:ssZ and read back as the same second; a text with a missing field or separator, a field out of its range or anything after the time is refused. "
     "Booleans are written as true or false, read back as such, and other words are refused.",
     ["inputs"], "for all calendar days, all clock times, all single-character changes, prefixes and extensions of a valid time",
     "The tests convert one time.",
     [V + "serialize.c"], [("serialize_time2str / serialize_str2time", V + "serialize.c")], observe=["serialize_time2str", "serialize_str2time", "serialize_bool2str"])

prop("C21", "The servers serve exactly their routes, with the protocol's status and types",
     "Each server answers exactly its documented method and path pairs with the documented status and content, gives every other request a plain-text error with the proper status, and requires a client certificate; "
     "malformed, oversized, pipelined or abandoned connections do not keep it from serving the next request. A server that cannot start says so.",
     ["inputs", "histories"], "for all methods and paths of a finite alphabet, header and body shapes, and connection histories up to a bound",
     "No test starts a server.",
     [B + "http/httplib_wrapper.cpp", B + "registrar/registrar_server.cpp", B + "masa/masa_server.cpp"], [("httplib_start, route tables", B + "http/httplib_wrapper.cpp")], observe=["HTTP answers over loopback TLS"])

prop("C22", "The pledge client binds itself only through a verified exchange",
     "The pledge client reports success only if the registrar delivered a voucher that verifies for the pledge's serial number and nonce and for the registrar's TLS certificate of that exchange; it then enrols over a connection whose server "
     "is verified against the pinned certificate, and hands back the certificate it was issued with the matching key. Whatever the registrar answers instead, at any step, the client reports failure, hands nothing back, and sends no enrolment request before the voucher was verified.",
     ["inputs", "fault_sequences"], "for all combinations of registrar answers (failure, status, body, TLS certificate) at each of the three steps and all configuration defects",
     "No test runs the client.",
     [B + "pledge/pledge_request.cpp", B + "pledge/pledge_utils.c"], [("post_sign_cert, post_voucher_pledge_request", B + "pledge/pledge_request.cpp")], observe=["requests sent, result, output buffers"])

prop("C23", "Every command does its job or fails with a non-zero exit status",
     "Each command line either performs the named command, leaving exactly its documented output, and exits with zero, or it exits with a non-zero status and, in verbose mode or for a usage error, says why. "
     "No argument list, configuration or input of any length makes it crash or report success without the output.",
     ["inputs", "configurations"], "for all commands with all option subsets, missing and unusable files, and input lengths around the buffer boundaries",
     "The tests never run the program.",
     [B + "brski.cpp"], [("process_options, run_command", B + "brski.cpp")], observe=["exit status, output files and text"])

prop("C24", "Generated certificates and keys are exactly as specified",
     "A generated key is a usable private key of the requested kind and size, and a generated certificate has exactly the requested serial number, names, validity and constraints, the key's public part and a valid self-signature. "
     "Signing it with a CA changes only issuer and signature, reading its data back gives the same serial number and names, and an unusable request is refused.",
     ["inputs", "configurations"], "for all key kinds, serial numbers at the boundaries, name entry lists, validity forms and constraint settings of a finite alphabet",
     "The tests generate one certificate per key kind and look at one field.",
     [V + "crypto_ossl.c", V + "crypto.h"], [("crypto_generate_*cert, crypto_sign_cert, crypto_getcert_meta", V + "crypto_ossl.c")], observe=["generated buffers read with an independent reader"])

prop("C25", "Bounded string and memory helpers stay within bounds",
     "The bounded copy, length, duplicate, formatting and hexadecimal helpers give exactly their documented result for every input and size, never reading past the given bound or terminator nor writing past the destination, "
     "and always terminate a non-empty destination.",
     ["inputs"], "for all source lengths and destination sizes up to a bound, with the buffers ending exactly at inaccessible memory",
     "The tests do not call them.",
     ["src/utils/os.c", "src/utils/os.h"], [("string helpers", "src/utils/os.c")], observe=["results and guarded memory"])

prop("C26", "The HTTPS client sends exactly the request and reports exactly the answer",
     "A request reaches exactly the given host, port and path as one POST with exactly the given body and content type, under the configured client certificate; the status, body and server certificate it reports are those of that connection. "
     "A request that must verify its server is sent only to one whose certificate chains to the given CA and to no other trust. Anything short of a complete well-formed answer, in whatever pieces or however cut off, is reported as a failure and changes no result.",
     ["inputs", "fault_sequences"], "for all answers of a finite grammar, all points where an answer is cut off or split, and all combinations of server certificate, given CA and system trust of a finite set",
     "No test sends a request.",
     [B + "http/httplib_wrapper.cpp", B + "http/https_client.cpp", B + "http/httplib.h"], [("httplib_post_request", B + "http/httplib_wrapper.cpp"), ("https_post_request, https_post_request_ca", B + "http/https_client.cpp")], observe=["bytes seen by a scripted TLS server; status, body and certificate returned"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
