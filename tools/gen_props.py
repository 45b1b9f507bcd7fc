#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source of the statements)."""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a})
V = "src/voucher/"; B = "src/brski/"; U = "src/utils/"

p("C01", "Base64 encoding is canonical and decoding inverts it",
  "Encoding any byte string yields exactly its standard padded base64 text (no line breaks, NUL-terminated, reported length equal to the text length). Decoding that text gives back exactly the original bytes and length.",
  ["inputs"], "every byte string up to the stated length, every length including 0",
  "the unit tests encode and decode two fixed strings; the padding classes and buffer-size arithmetic depend on length mod 3 and on every byte value",
  [V+"serialize.c"], [("padded encode", V+"serialize.c: serialize_array2base64str"), ("decode", V+"serialize.c: serialize_base64str2array")])
p("C02", "Base64 decoding of arbitrary text is safe and has one defined result",
  "Decoding any byte sequence reads only the given bytes and writes only its own buffer; characters outside the alphabet are skipped, missing padding is supplied, decoding stops at the first padded group, and input with no alphabet character or with three or more padding characters in a group is rejected. On success the caller owns a buffer of the reported length; on rejection the caller gets an error and no buffer, so releasing the result is always safe.",
  ["inputs"], "every byte string up to the stated length, valid or not, fed to the decoder",
  "the tests decode only well-formed text; the decoder is fed raw network bodies, so malformed padding, foreign characters and truncated groups are what matters",
  [V+"serialize.c"], [("decode table, padding and error exits", V+"serialize.c: serialize_base64str2array")])
p("C03", "Scalar text forms: booleans and times are exact and round-trip",
  "A boolean is written as true or false and read back from exactly true, false (any letter case), 1 and 0, everything else being an error. A calendar time with a four-digit year is written as YYYY-MM-DDThh:mm:ssZ and reading that text gives the same calendar fields; text that does not start with that form is an error and no read goes beyond the given text.",
  ["inputs"], "every boolean, every text up to the stated length, every valid calendar time from year 1000 to 9999",
  "tests check a handful of strings and two times", [V+"serialize.c"],
  [("boolean text", V+"serialize.c: serialize_bool2str, serialize_str2bool"), ("time text", V+"serialize.c: serialize_time2str, serialize_str2time")])
p("C04", "Key-value lists serialise to the exact JSON object text",
  "Serialising a non-empty list of key and value texts yields {k1:v1,k2:v2,...} with every pair, in insertion order, comma-separated and in a buffer that exactly holds it. Quoting a text puts exactly one pair of quotes around it; an empty list, or no list, gives an error; nothing is leaked.",
  ["inputs", "fault_sequences"], "every list and every text within the stated sizes, with and without an allocation failing",
  "the tests serialise two short fixed lists; buffer growth arithmetic depends on the number of pairs and on each length",
  [V+"serialize.c", V+"keyvalue.c"], [("incremental buffer growth", V+"serialize.c: serialize_keyvalue2json"), ("quoting", V+"serialize.c: serialize_escapestr")])
p("C05", "A voucher survives serialisation and parsing unchanged",
  "For any voucher whose serial number needs no JSON escaping, parsing its serialised JSON gives a voucher with the same set of attributes and the same value for each of them (times, assertion, serial number, every binary attribute, revocation flag). The JSON has the voucher root with exactly the set attributes under their standard names.",
  ["inputs"], "every combination of set and unset attributes and every value within the stated sizes",
  "the tests serialise one or two fixed vouchers and parse fixed JSON; no test goes through all attribute subsets or byte values",
  [V+"voucher.c", V+"serialize.c"], [("serialisation", V+"voucher.c: serialize_voucher"), ("parsing", V+"voucher.c: deserialize_voucher")])
p("C06", "Voucher JSON parsing is safe and accepts only voucher objects",
  "Parsing any byte sequence reads only the given bytes, and yields a voucher only when the text is, as the JSON tokenizer recognises it, an object whose voucher root member holds an object in which every member name is a known attribute with a value valid for that attribute; any unknown name or invalid value gives no voucher. A rejected text leaves nothing allocated, and an accepted one is completely released by freeing the voucher.",
  ["inputs"], "every byte sequence up to the stated length and every symbolic member name, value text and member order within the stated sizes",
  "the tests parse a few fixed texts; this text is attacker controlled after CMS unwrapping",
  [V+"voucher.c"], [("token walk", V+"voucher.c: deserialize_voucher"), ("attribute dispatch", V+"voucher.c: set_keyvalue_voucher")])
p("C07", "Voucher attributes: set, get, clear and presence agree and stay isolated",
  "Setting an attribute with a value of its type makes it present and makes reading it return exactly that value (a private copy for texts and binary data), without changing any other attribute; clearing makes it absent; operations with an attribute of another type, an invalid value (assertion outside the enumeration, serial number of 128 characters or more, empty binary data, missing value) fail and change nothing. The generic setter behaves as the typed one.",
  ["inputs", "histories"], "every attribute number, value and every sequence of operations within the stated length on an arbitrary voucher",
  "the tests set and read each attribute once on a fresh voucher; cross-attribute interference and out-of-range attribute numbers are not sampled",
  [V+"voucher.c"], [("typed and generic setters, getters, clear, presence", V+"voucher.c: set_attr_*, get_attr_*, clear_attr_voucher, is_attr_voucher_nonempty")])
p("C08", "Voucher memory: every value has exactly one owner",
  "After any sequence of setting (also setting again), clearing and reading attributes followed by freeing the voucher, all memory the voucher allocated has been released exactly once and nothing released is used. Memory passed in stays owned by the caller and unmodified, and an allocation failure at any point is reported as an error with the voucher still releasable.",
  ["histories", "fault_sequences"], "every operation sequence within the stated length, with at most one allocation failing at any point",
  "the tests free each voucher once after setting each attribute at most once, and never see a failing allocation",
  [V+"voucher.c", V+"array.c"], [("setters, clear and free", V+"voucher.c: set_attr_*, clear_attr_voucher, free_voucher")])
p("C09", "Byte arrays and ordered lists are faithful deep copies",
  "Copying a byte array gives an independent array with the same bytes and length; comparing two arrays says equal exactly when lengths and all bytes agree, and an error when one is missing. A list of byte arrays or of key-value texts holds independent copies of everything pushed, in push order with length and flags, and freeing it releases everything exactly once, also after an allocation failure.",
  ["inputs", "histories", "fault_sequences"], "every content within the stated sizes, every push sequence within the stated length, one allocation failure at any point",
  "tests push two fixed elements", [V+"array.c", V+"keyvalue.c", V+"array.h"],
  [("copy, compare, list push and free", V+"array.c"), ("key-value list", V+"keyvalue.c"), ("intrusive list", V+"array.h")])
p("C10", "The pledge's voucher request says what BRSKI requires, signed with its key",
  "The pledge voucher request that gets signed contains exactly the given creation time, nonce (when one is given), registrar certificate as proximity certificate, serial number, and the assertion proximity. It is signed with the given certificate, key and additional certificates, the result is returned unchanged, and if any step fails nothing is signed or returned.",
  ["inputs", "fault_sequences"], "every argument value within the stated sizes, and a failure of any step",
  "the test builds one request from fixed arguments", [V+"request.c"],
  [("request assembly", V+"request.c: sign_pledge_voucher_request")])
p("C11", "The registrar vouches only for a verified, matching pledge request",
  "The registrar signs a voucher request only when the pledge's signed request verified against the configured certificates and trust store, carries the serial number of the pledge's authenticated certificate, carries a proximity certificate byte-identical to the registrar's own TLS certificate, and asserts proximity; a missing or different value of any of these means no request is signed and an error is reported without crashing.",
  ["inputs", "fault_sequences"], "every content of the verified pledge request (every attribute present or absent) and every argument, and every step failing",
  "the test runs one matching request; the mismatching and missing combinations are what the check is for", [V+"request.c"],
  [("serial, proximity certificate and assertion checks", V+"request.c: sign_voucher_request")])
p("C12", "The registrar's voucher request has the prescribed content",
  "A registrar voucher request that is signed contains exactly: the given creation time, the nonce of the pledge request if and only if it had one, the serial number and issuer taken from the pledge's certificate, and the complete signed pledge request unchanged; it is signed with the registrar's certificate and key and the additional certificates.",
  ["inputs"], "every content of the verified pledge request and every argument within the stated sizes",
  "the test does not compare the produced request's fields for varying input", [V+"request.c"],
  [("request assembly", V+"request.c: sign_voucher_request")])
p("C13", "The MASA issues a voucher only after both signatures and serials check out",
  "The MASA signs a voucher only when the registrar's request verified against the registrar trust configuration, contains a serial number and a prior signed request, that prior request verified against the pledge trust configuration, both serial numbers are identical, and the policy callback accepted; otherwise no voucher is produced and nothing is leaked or crashes.",
  ["inputs", "fault_sequences"], "every content of both verified requests (attributes present or absent), every callback answer and every step failing",
  "the test runs one well-formed chain", [V+"request.c"],
  [("both verifications and serial comparison", V+"request.c: sign_masa_pledge_voucher")])
p("C14", "The issued voucher binds serial, nonce and pinned certificate as prescribed",
  "A voucher the MASA signs contains exactly: the verified serial number, the nonce of the registrar's request if and only if present, assertion proximity, the pinned domain certificate chosen by the policy callback, the given expiry, and revocation checks off; the callback sees the verified serial and the registrar's certificates, and signing uses the MASA certificate, key and additional certificates.",
  ["inputs"], "every content of both requests and every callback result within the stated sizes",
  "the test does not look at the issued voucher for varying requests", [V+"request.c"],
  [("voucher assembly", V+"request.c: sign_masa_pledge_voucher")])
p("C15", "The pledge accepts a voucher only if every check passes",
  "The pledge accepts exactly when the voucher's signature verified against the manufacturer trust configuration, it carries the pledge's serial number, the voucher nonce equals the pledge's nonce whenever the pledge has one, it carries a pinned domain certificate, and the registrar's TLS certificate verifies with that pinned certificate and the domain store. On acceptance the pinned certificate is handed out byte-identical; in every other case an error is returned and no pinned certificate is handed out.",
  ["inputs", "fault_sequences"], "every voucher content (attributes present or absent), every pledge nonce and serial, every verification outcome",
  "the test verifies one good voucher; the reject combinations are not sampled", [V+"request.c"],
  [("voucher checks", V+"request.c: verify_masa_pledge_voucher")])
p("C16", "Protocol steps release everything and hand out nothing on failure",
  "Each of the four voucher protocol steps (pledge request, registrar request, MASA voucher, pledge verification) releases everything it allocated except the one result it returns, whichever step fails, including a failing allocation, and never uses released memory.",
  ["fault_sequences"], "one failure at any allocation, verification, callback, signing or parsing step of each protocol operation",
  "no test makes a step fail; error exits are never executed", [V+"request.c", V+"voucher.c"],
  [("error exits", V+"request.c"), ("verify and sign wrappers", V+"voucher.c: verify_cms_voucher, sign_cms_voucher, sign_eccms_voucher, sign_rsacms_voucher")])
p("C17", "Signed content is released only after signature verification",
  "Verifying a signed message returns its content only when the crypto library reported success for that very message, using exactly the given extra certificates and trust store; certificate-chain checking is skipped only when no trust store is given, and never because one is empty or fails to load. On any failure an error and no content or certificates are returned, and all library objects are released exactly once.",
  ["inputs", "fault_sequences"], "every outcome of every crypto-library call, every store/certificate list within the stated sizes",
  "the tests verify one good message; no test has a library call fail or a forged message", [V+"crypto_ossl.c"],
  [("CMS verification", V+"crypto_ossl.c: crypto_verify_cms"), ("trust store", V+"crypto_ossl.c: get_certificate_store")])
p("C18", "Signing covers exactly the given content, certificate and key",
  "Signing produces a message only when every library step succeeded; the message embeds exactly the given content, is signed with the given certificate and private key and carries all given additional certificates. Voucher signing passes the exact serialised voucher; on any failure an error and no message are returned, and all library objects are released exactly once.",
  ["inputs", "fault_sequences"], "every outcome of every crypto-library call and every argument within the stated sizes",
  "the tests sign one fixed message per key type", [V+"crypto_ossl.c", V+"voucher.c"],
  [("CMS signing", V+"crypto_ossl.c: crypto_sign_cms, crypto_sign_eccms, crypto_sign_rsacms"), ("voucher signing", V+"voucher.c: sign_cms_voucher and variants")])
p("C19", "Certificate verification succeeds only for a chain whose signatures hold",
  "Certificate verification reports success only when the crypto library built a chain for exactly the given certificate using the given intermediate certificates and trust store, each certificate of it is signed by the next one, and it ends in the trust store (without a trust store: in one of the given certificates); a malformed certificate, list or store, or any failing step, is reported as failure. All library objects are released exactly once on every path.",
  ["inputs", "fault_sequences"], "every outcome of every crypto-library call and every list within the stated sizes",
  "the test verifies two good chains and one bad one", [V+"crypto_ossl.c"],
  [("chain verification", V+"crypto_ossl.c: crypto_verify_cert")])
p("C20", "Generated and signed certificates carry exactly the requested metadata",
  "Generating a certificate applies the requested serial number, validity period, issuer and subject names (in order), the given key, basic constraints, and signs it with that key; signing a certificate sets the issuer from the CA certificate's subject, leaves its other contents alone, signs with the CA key and checks the signed certificate before handing it out. Key generation and random bytes succeed only when the library reports success. Failure of any step gives an error and no certificate or key, and all library objects are released exactly once.",
  ["inputs", "fault_sequences"], "every metadata value within the stated sizes and every outcome of every crypto-library call",
  "the tests generate a few fixed certificates and only check that generation succeeds", [V+"crypto_ossl.c"],
  [("generation", V+"crypto_ossl.c: crypto_generate_eccert, crypto_generate_rsacert"), ("signing", V+"crypto_ossl.c: crypto_sign_cert"), ("keys", V+"crypto_ossl.c: crypto_generate_eckey, crypto_generate_rsakey, crypto_getrand")])
p("C21", "Certificate and key conversions are faithful and own their results",
  "Loading, converting or extracting a certificate, key, metadata, serial number or issuer, and writing one to a file, hands over exactly what the crypto library decoded or encoded from exactly the given bytes or file, with the reported length, or gives an error with no result; library objects and files are closed exactly once. A certificate's subject serial number is found exactly when the subject has one; a name value containing a NUL byte is an error, and a numeric serial number that does not fit 64 bits is reported as 0.",
  ["inputs", "fault_sequences"], "every outcome of every library and file call, every buffer and metadata list within the stated sizes",
  "tests convert a few freshly generated objects", [V+"crypto_ossl.c"],
  [("conversions", V+"crypto_ossl.c: crypto_cert2buf, crypto_certbuf2context, crypto_eckey2context"), ("metadata", V+"crypto_ossl.c: crypto_getcert_meta, crypto_getcert_serial, crypto_getcert_issuer"), ("files", V+"crypto_ossl.c: certbuf_to_file, file_to_x509buf, file_to_keybuf, cmsbuf_to_file")])
p("C22", "Every configuration key reaches exactly its own setting",
  "Loading the configuration file gives each pledge, registrar and MASA setting exactly the value of its own key in its own section, the documented default when the key is missing, and no value when it is empty; a certificate list setting holds all non-empty values of its key in file order; no setting takes its value from another key or section. Releasing the configuration frees everything exactly once, also when loading fails part way.",
  ["configurations", "fault_sequences"], "every assignment of values to keys within the stated sizes (presence, emptiness, content), and one allocation failing at any point",
  "the tests load two fixed configuration files and look at few settings", [B+"config.c"],
  [("section loaders", B+"config.c: load_brski_config"), ("release", B+"config.c: free_config_content")])
p("C23", "Certificate lists load completely, in order, or not at all",
  "Loading a list of certificate files gives one entry per file, in the configured order, with exactly that file's certificate; an empty or absent list gives no list and success. If any file cannot be loaded the result is an error and no list, so that releasing the result afterwards is always safe.",
  ["configurations", "fault_sequences"], "every list length within the bound and any file failing to load, one allocation failing",
  "tests load lists of zero or one existing file", [B+"config.c"],
  [("list loading", B+"config.c: load_cert_files")])
p("C24", "Memory and string helpers keep their bounds",
  "The string and memory helpers never read beyond the given bound or write beyond the given size: bounded copy always terminates its destination and reports the source length (a destination of size 0 is not written), bounded length never exceeds the bound, duplication gives an equal independent terminated copy, and growing an array refuses sizes that overflow.",
  ["inputs"], "every text, bound and size within the stated ranges, all 64-bit element counts and sizes for the overflow check",
  "no test targets these helpers; only sizes near the bound or near overflow matter", [U+"os.c", U+"os.h"],
  [("helpers", U+"os.c")])
p("C25", "Logging filters by level and formats within its buffers",
  "A message is emitted exactly when its level is at or above the configured level and logging is not silenced, the registered lock is taken before and released after each emission exactly once, and errno is preserved. Hex printing writes the two-digit form of the leading bytes that fit, always terminated inside the given buffer, in the requested letter case.",
  ["inputs", "configurations"], "every level, setting, lock presence, and every hex buffer size and data within the stated sizes",
  "no test targets the logger", [U+"log.c"], [("level filter and lock", U+"log.c: log_levels, log_errno_error"), ("hex printing", U+"log.c: printf_hex")])
p("C26", "The pledge builds its request from its own configuration, completely",
  "Building the pledge request uses the configured creation time (the current time when none is configured), the decoded configured nonce if any, the configured serial number, the signing certificate and key files and all additional certificate files, together with the given registrar certificate; the exported base64 or file content is exactly the signed request. Any step failing gives an error, no result, and releases everything exactly once.",
  ["configurations", "fault_sequences"], "every configuration (each setting present or absent) and any step failing",
  "two tests build one request each from complete configurations", [B+"pledge/pledge_utils.c"],
  [("request building", B+"pledge/pledge_utils.c")])
p("C27", "The registrar relays only vouchers for the TLS-authenticated pledge",
  "A voucher request is answered with success (status 200 to 299) only after the pledge's body decoded, the registrar signed a request for the serial number and issuer of the certificate authenticated by TLS, using its configured certificates, and the MASA answered that very request with success, whose answer is returned unchanged; every other outcome is answered with an error status (or an exception, which the HTTP layer answers with one) and never with success. Every request releases what it allocated.",
  ["inputs", "fault_sequences"], "every outcome of every step of one request, every body within the stated size",
  "the end-to-end test runs one good request", [B+"registrar/registrar_api.cpp"],
  [("voucher request handler", B+"registrar/registrar_api.cpp: registrar_requestvoucher, post_voucher_request")])
p("C28", "The registrar enrols only through its CA and reports failures",
  "A certificate enrolment is answered with success (status 200 to 299) only when the posted certificate decoded and was signed with the configured CA key and certificate, and then the answer is exactly the base64 of the signed certificate; any failing step is answered with an error status. Every request releases what it allocated exactly once.",
  ["inputs", "fault_sequences"], "every outcome of every step of one request, every body within the stated size",
  "the end-to-end test runs at most one enrolment", [B+"registrar/registrar_api.cpp"],
  [("enrolment handler", B+"registrar/registrar_api.cpp: registrar_est_simpleenroll")])
p("C29", "The MASA HTTP endpoint answers success only with a signed voucher",
  "A request to the MASA is answered with success (status 200 to 299) only when its body decoded and a voucher was signed from it under the configured trust anchors and expiry, with the configured domain certificate pinned, and then the body is exactly that voucher in base64; any failing step is answered with an error status. Every request, and every sequence of requests on the same server, releases what it allocated exactly once.",
  ["inputs", "fault_sequences", "histories"], "every outcome of every step, two consecutive requests",
  "the end-to-end test runs one good request", [B+"masa/masa_api.cpp"],
  [("voucher handler", B+"masa/masa_api.cpp: masa_requestvoucher, voucher_req_cb")])
p("C30", "The pledge trusts a registrar only through a verified voucher",
  "The pledge's bootstrap succeeds only when the registrar answered the request built for the TLS certificate it presented with success (status 200 to 299), and the answered voucher verified for the pledge's serial number and nonce, under the pledge's trust configuration, against the certificate the registrar presented on the connection that answered; then the pinned certificate is returned. Enrolment uses only a bootstrap that succeeded, and every failure is reported, with everything released exactly once.",
  ["inputs", "fault_sequences"], "every outcome of every step (network status, decoding, verification), every nonce setting",
  "the end-to-end test runs one good bootstrap", [B+"pledge/pledge_request.cpp"],
  [("bootstrap", B+"pledge/pledge_request.cpp: post_voucher_pledge_request, verify_masa_pledge_request"), ("enrolment", B+"pledge/pledge_request.cpp: post_sign_cert")])
p("C31", "HTTP layer: requests reach their handler with the TLS peer certificate",
  "Each configured path and method is served by exactly its handler, which receives the request body, headers and the TLS peer certificate; the response carries the handler's status, headers and body; any other path or method gets 404, an exception becomes a server error answer, and every error answer is plain text. A server that cannot be made or cannot listen is reported as an error. The HTTPS client sends exactly the given request with the given identity, verifies the server when asked to, and returns the server's status, body and peer certificate, or an error.",
  ["inputs", "fault_sequences"], "every route and method, every status, body and header set within the stated sizes, every way of failing to start",
  "the end-to-end test sends two requests one after the other", [B+"http/httplib_wrapper.cpp", B+"http/https_client.cpp", B+"http/https_server.cpp"],
  [("routing", B+"http/httplib_wrapper.cpp")])
p("C32", "Concurrent requests do not interfere",
  "Requests served at the same time behave as if served one after the other: each response is computed from its own request and the static configuration, and no request uses or releases memory belonging to another.",
  ["schedules"], "two requests to one server, the second served completely at any library call of the first",
  "tests send one request at a time", [B+"masa/masa_api.cpp", B+"registrar/registrar_api.cpp"],
  [("per-request state", B+"masa/masa_api.cpp: masa_requestvoucher"), ("shared context", B+"masa/masa_server.cpp")])
p("C33", "The command line does exactly what is asked, and reads bounded input",
  "Each documented command name selects exactly its operation, run once with the named configuration file and the given or configured port and address; an unknown command or option, or a missing command or argument, is an error in which nothing is done. Input piped to the program is read without exceeding its buffer and used completely or rejected. Exit status 0 is returned only when every step succeeded and the result was printed, or written to the named file with its suffix, completely.",
  ["inputs", "fault_sequences"], "every command text, option and argument within the stated sizes, every standard-input length around the buffer size, each step failing",
  "tests run two or three commands with small input", [B+"brski.cpp"],
  [("options and command table", B+"brski.cpp: process_options, get_command_id"), ("stdin reader", B+"brski.cpp: read_stdin"), ("commands", B+"brski.cpp: main")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
