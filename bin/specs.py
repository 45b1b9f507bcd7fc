"""The checks: per property, its harnesses."""
from engine import H, S, Unit, Cpp
import os
HERE = os.path.dirname(os.path.abspath(__file__))

SER = Unit("src/voucher/serialize.c", cap=True)
SERF = Unit("src/voucher/serialize.c")
OSCF = Unit("src/utils/os.c")
OSC = Unit("src/utils/os.c", cap=True)

CHECKS = {}
def check(pid, harnesses, assumptions=()):
    CHECKS[pid] = {"harnesses": harnesses, "assumptions": list(assumptions)}

def enc(name, a, b, tier="quick", field=None):
    return H(name, "c01.c", "h_encode", [SERF, OSCF], ["-DNMIN=%d" % a, "-DNMAX=%d" % b], unwind=b + 45, tier=tier,
             bounds="every byte string of %d..%d bytes" % (a, b), field=field, maxunwind=2000)
def rtp(a, b, tier="quick"):
    return H("roundtrip_%d_%d" % (a, b), "c01.c", "h_roundtrip", [SER, OSC], ["-DNMIN=%d" % a, "-DNMAX=%d" % b],
             unwind=max(70, b + 5), uws={"base64_gen_decode.2": (b + 2) // 3 * 4 + 5}, cap=(b + 2) // 3 * 4 + 12, tier=tier,
             bounds="every byte string of %d..%d bytes" % (a, b), timeout=800 if tier == "quick" else 3000)
check("C01", [enc("encode_0_16", 0, 16), enc("encode_17_24", 17, 24), enc("encode_47_49", 47, 49), enc("encode_52_57", 52, 57), enc("encode_64", 64, 64),
    enc("encode_255", 255, 257, field=512), enc("encode_25_46", 25, 46, "thorough"), enc("encode_1023", 1023, 1025, "thorough", field=2048)] +
    [rtp(a, b) for a, b in [(1, 5), (6, 8), (9, 10), (11, 12), (13, 13), (15, 15), (17, 17), (24, 24), (32, 32), (33, 33), (48, 48)]] +
    [rtp(a, a, "thorough") for a in (14, 16, 20, 28, 31, 40, 49, 56, 64, 72, 96)] +
    [S(n + "_long", "c01.c", "h_%s_long" % n, [SERF, OSCF], ["-DLONG"], wit=[w], bounds="byte strings of 54 to %d bytes, any content at 3 places, one of 3 positions" % m) for n, w, m in (("encode", "encoded", 12289), ("roundtrip", "decoded", 768))])

def dec(a, b, tier="quick"):
    return H("decode_%d_%d" % (a, b), "c02.c", "h_decode", [SER, OSC], ["-DNMIN=%d" % a, "-DNMAX=%d" % b, "-DSTALE"],
             unwind=66, uws={"base64_gen_decode.2": b + 5}, cap=(b + 3) // 4 * 3 + 8, tier=tier,
             bounds="every byte string of %d..%d bytes" % (a, b), timeout=800 if tier == "quick" else 3000)
check("C02", [dec(0, 3), dec(4, 4), dec(5, 6), dec(7, 8), dec(9, 9), dec(10, 10), dec(11, 11, "thorough"), dec(12, 12, "thorough"), dec(16, 16, "thorough"),
    H("oom", "c02.c", "h_decode_oom", [SER, OSC], ["-DNMIN=6", "-DNMAX=6"], unwind=70, bounds="every byte string of 6 bytes, first allocation fails"),
    S("decode_long", "c02.c", "h_decode_long", [SERF, OSCF], ["-DLONG", "-DNMIN=0", "-DNMAX=300", "-DNL=2"], wit=["decoded", "rejected"], bounds="texts of 129, 130 and 257 characters in lines of 64, any content at 2 places, one of 5 positions"),
    S("decode_longer", "c02.c", "h_decode_long", [SERF, OSCF], ["-DLONG", "-DNMIN=0", "-DNMAX=2050", "-DNL=4"], tier="thorough", wit=["decoded", "rejected"], bounds="texts of 129 to 2050 characters in lines of 64, any content at 2 places, one of 5 positions")])

SO = [SERF, OSCF]
def tread(a, b, tier="quick"):
    return H("time_read_%d_%d" % (a, b), "c03.c", "h_time_read", SO, ["-DNMIN=%d" % a, "-DNMAX=%d" % b], unwind=30, tier=tier, bounds="every text of %d..%d characters" % (a, b))
check("C03", [
    S("bool_read", "c03.c", "h_bool_read", SO, ["-DONE", "-DNMIN=0", "-DNMAX=8"], wit=["true read", "false read", "rejected"], bounds="every byte string of 0..8 bytes"),
    S("bool_write", "c03.c", "h_bool_write", SO, wit=["boolean"], bounds="both values; allocation failure"),
    S("time_roundtrip", "c03.c", "h_time_roundtrip", SO, wit=["time round trip"], bounds="every year 1000..9999, month, day 1..31, hour, minute, second 0..60"),
    S("time_oom", "c03.c", "h_time_oom", SO, wit=["oom"], bounds="allocation failure"),
] + [tread(a, b) for a, b in ((0, 6), (7, 9), (10, 11), (12, 13), (16, 16), (19, 19), (20, 20))] + [tread(14, 15, "thorough"), tread(17, 18, "thorough"), tread(21, 22, "thorough")])

KV = Unit("src/voucher/keyvalue.c")
SKV = [SERF, OSCF, KV]
def kvj(name, np_, lens, tier="quick"):
    return S("json_" + name, "c04.c", "h_json", SKV, ["-DNP=%d" % np_, "-DLENS={%s}" % ",".join(map(str, lens))], tier=tier, wit=["serialised"],
             bounds="%d pairs, key/value lengths %s, every content" % (np_, lens))
check("C04", [
    kvj("1_e", 1, (0, 0)), kvj("1", 1, (3, 4)), kvj("2", 2, (1, 2, 2, 0)), kvj("3", 3, (1, 1, 1, 1, 2, 1)),
    kvj("4", 4, (1,)*8), kvj("2l", 2, (6, 8, 5, 7)), kvj("8", 8, (9,5)*8), kvj("2vl", 2, (30,80,40,90)), kvj("2xl", 2, (130,380,256,1020)),
    S("json_oom_2", "c04.c", "h_json_oom", SKV, ["-DONE", "-DNP=2"], wit=["every allocation failed once"], bounds="2 pairs, each allocation failing"),
    S("json_oom_3", "c04.c", "h_json_oom", SKV, ["-DONE", "-DNP=3"], wit=["every allocation failed once"], bounds="3 pairs, each allocation failing"),
    S("quote", "c04.c", "h_quote", SKV, ["-DML=5"], wit=["quoted"], bounds="every text of 0..5 characters; missing arguments"),
    S("quote_long", "c04.c", "h_quote", SKV, ["-DML=20"], wit=["quoted"], bounds="every text of 0..20 characters; missing arguments"),
])

ARR = Unit("src/voucher/array.c")
SA = [ARR, OSCF, KV]
check("C09", [
    S("copy", "c09.c", "h_copy", SA, ["-DONE", "-DNMAX=40"], wit=["copied"], bounds="every byte array of 0..40 bytes; allocation failure"),
    S("compare", "c09.c", "h_compare", SA, ["-DONE", "-DNMAX=12"], bounds="every pair of byte arrays of lengths 0..12 / 0..13"),
    S("compare_long", "c09.c", "h_compare", SA, ["-DONE", "-DNMAX=40"], bounds="every pair of byte arrays of lengths 0..40", tier="thorough"),
    S("copy_257", "c09.c", "h_copy", SA, ["-DONE", "-DNMIN=256", "-DNMAX=257"], wit=["copied"], bounds="every byte array of 256..257 bytes"),
    S("compare_257", "c09.c", "h_compare", SA, ["-DONE", "-DNMIN=257", "-DNMAX=257"], bounds="every pair of byte arrays of 257 and 255..258 bytes"),
    S("alist", "c09.c", "h_alist", SA, ["-DK=4"], bounds="4 arrays of lengths 2,0,3,1, any content and flags"),
    S("alist8", "c09.c", "h_alist", SA, ["-DK=8", "-DLENS={1,2,3,4,5,6,7,8}"], bounds="8 arrays of lengths 1..8"),
    S("alist_oom", "c09.c", "h_alist_oom", SA, ["-DK=3"], bounds="3 pushes, each allocation failing"),
    S("klist", "c09.c", "h_klist", SA, ["-DK=3"], bounds="3 pairs, any texts of lengths 2,0,3,1"),
    S("klist_oom", "c09.c", "h_klist_oom", SA, ["-DK=3"], bounds="3 pairs, each allocation failing"),
])

VOU = Unit("src/voucher/voucher.c")
VU = [VOU, ARR, KV, SERF, OSCF]
check("C07", [S("seq_%d" % f, "c07.c", "h_seq", VU, ["-DK=2", "-DFIRST=%d" % f], bounds="every sequence of 2 operations (typed set, generic set, clear of the 11 attributes), values of 1..2 bytes") for f in range(3)] + [
    S("one", "c07.c", "h_one", VU, ["-DK=4", "-DLMAX=1"], bounds="every sequence of 4 operations on one attribute"),
    S("full", "c07.c", "h_full", VU, ["-DLMAX=1"], bounds="all attributes set, one set again or cleared"),
    S("bad", "c07.c", "h_bad", VU, ["-DLMAX=1"], bounds="every refused call, any attribute number, on empty and full vouchers"),
    S("serial", "c07.c", "h_serial", VU, ["-DNMIN=120", "-DNMAX=127"], bounds="serial numbers of 120..127 characters"),
    S("time", "c07.c", "h_time", VU, bounds="any field values"),
    S("seq3", "c07.c", "h_seq", VU, ["-DK=3", "-DLMAX=1"], tier="thorough", timeout=10000, bounds="every sequence of 3 operations"),
])
check("C08", [S("seq_%d" % f, "c07.c", "h_seq", VU, ["-DOWN", "-DK=2", "-DFIRST=%d" % f], bounds="every sequence of 2 operations (typed set, generic set, clear of the 11 attributes), values of 1..2 bytes") for f in range(3)] + [
    S("one", "c07.c", "h_one", VU, ["-DOWN", "-DK=5", "-DLMAX=1"], bounds="every sequence of 5 operations on one attribute"),
    S("full", "c07.c", "h_full", VU, ["-DOWN", "-DLMAX=1"], bounds="all attributes set, one set again or cleared"),
    S("bad", "c07.c", "h_bad", VU, ["-DOWN", "-DLMAX=1"], bounds="every refused call, any attribute number, on empty and full vouchers"),
    S("self", "c07.c", "h_self", VU, ["-DOWN", "-DLMAX=1"], bounds="setting an attribute from the voucher's own value"),
    S("oom", "c07.c", "h_oom", VU, ["-DOWN", "-DK=2", "-DLMAX=1"], bounds="2 operations, each allocation failing"),
    S("oom3", "c07.c", "h_oom", VU, ["-DOWN", "-DK=3", "-DLMAX=1"], tier="thorough", timeout=10000, bounds="3 operations, each allocation failing"),
])

check("C05", [
    S("single", "c05.c", "h_single", VU, ["-DLO=0", "-DHI=0", "-DBIG=0"], bounds="any one attribute, any value (binary 1..3 bytes, serial number 0..3 characters, any four-digit year)"),
    S("all", "c05.c", "h_all", VU, ["-DLO=0", "-DHI=0", "-DBIG=0"], bounds="all attributes, any binary and serial values of 2 bytes"),
    S("long", "c05.c", "h_long", VU, ["-DLO=0", "-DHI=0", "-DBIG=48"], bounds="serial number of 126..127 characters; binary of 48 bytes"),
    S("mask", "c05.c", "h_mask", VU, ["-DLO=0", "-DHI=10", "-DBIG=0"], max_steps=2000000000, bounds="every presence combination of the attributes, fixed values"),
] + [S("mask_%d" % lo, "c05.c", "h_mask", VU, ["-DLO=%d" % lo, "-DHI=%d" % hi, "-DBIG=0"], bounds="every presence combination of attributes %d..%d, the others all or none" % (lo, hi)) for lo, hi in ((0, 3), (4, 7), (7, 10))])

R = "'ietf-voucher:voucher'"
def tpl(name, ts, fn="h_tpl", extra=(), tier="quick", bounds=None, **kw):
    return S(name, "c06.c", fn, VU, ["-DTPL={%s}" % ",".join('"%s"' % t for t in ts)] + list(extra), tier=tier,
             bounds=bounds or "every value of the bytes marked ? in: " + "  ".join(ts), **kw)
def vo(k, v): return "{%s:{'%s':%s}}" % (R, k, v)
ANAMES = ["created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert", "domain-cert-revocation-checks", "nonce",
    "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"]
FULLV = ("{%s:{'created-on':'2023-01-02T03:04:05Z','expires-on':'2024-01-02T03:04:05Z','assertion':'proximity','serial-number':'AB1','idevid-issuer':'QUI=',"
    "'pinned-domain-cert':'QUJD','domain-cert-revocation-checks':true,'nonce':'QQ==','last-renewal-date':'2023-11-12T13:14:15Z','prior-signed-voucher-request':'RERE','proximity-registrar-cert':'RQ=='}}" % R)
KVALS = {"assertion": "'logged'", "serial-number": "'s'", "domain-cert-revocation-checks": "true", "created-on": "'2023-01-02T03:04:05Z'",
        "expires-on": "'2023-01-02T03:04:05Z'", "last-renewal-date": "'2023-01-02T03:04:05Z'"}
check("C06", [
    S("raw_0_3", "c06.c", "h_raw", VU, ["-DNMIN=0", "-DNMAX=3", "-DNOACC"], bounds="every text of 0..3 bytes"),
    S("raw_4", "c06.c", "h_raw", VU, ["-DNMIN=4", "-DNMAX=4", "-DNOACC"], bounds="every text of 4 bytes"),
    S("raw_5", "c06.c", "h_raw", VU, ["-DNMIN=5", "-DNMAX=5", "-DNOACC"], tier="thorough", bounds="every text of 5 bytes"),
    tpl("root", ["{%s%s:{}}" % (a, b) for a in ("'",) for b in ("'", "i'", "ietf'", "ietf-voucher:vouche?'", "?etf-voucher:voucher'", "ietf-voucher:voucher?'", "ietf-voucher:voucher??")], bounds="root names: prefixes, one byte changed, one byte more"),
    tpl("keys_short", [vo(k[:i], "'true'") for k in ("nonce", "domain-cert-revocation-checks") for i in range(0, len(k) + 1, 3)] + [vo("nonce", "'QQ=='"), vo("?", "'x'"), vo("??", "1")], bounds="member names: prefixes and every name of 1..2 bytes"),
    tpl("key_cut", [vo(k[:n], KVALS.get(k, "'QQ=='")) for k in ANAMES for n in range(len(k))] + [vo("nonce", "'QQ=='")], bounds="every proper prefix of every member name, with a value valid for that member"),
    tpl("key_ext", [vo(k + "?", KVALS.get(k, "'QQ=='")) for k in ANAMES] + [vo("?" + k, KVALS.get(k, "'QQ=='")) for k in ANAMES] + [vo("nonce", "'QQ=='")], bounds="every member name with any byte added before or after"),
    tpl("assert_cut", [vo("assertion", "'" + k[:n] + "'") for k in ("verified", "logged", "proximity") for n in range(len(k) + 1)] + [vo("assertion", "'" + k + "?'") for k in ("verified", "logged", "proximity")],
        bounds="every prefix of every assertion, and one more byte"),
    tpl("root_cut", ["{'%s':{}}" % "ietf-voucher:voucher"[:n] for n in range(21)], bounds="every proper prefix of the root name"),
] + [tpl("key_%d" % i, [vo(k[:j] + "?" + k[j + 1:], KVALS.get(k, "'QQ=='")) for j in (0, len(k) // 2, len(k) - 1)],
        bounds="member name %s with its first, middle or last byte arbitrary" % k) for i, k in enumerate(ANAMES)] + [
    tpl("v_bool", [vo("domain-cert-revocation-checks", v) for v in ("???", "tru?", "?r??", "'????'", "'1'", "0", "{}", "[]", "['true']", "{'a':'b'}", "?")]),
    tpl("v_assert", [vo("assertion", v) for v in ("'??gged'", "'logged?'", "'verified'", "'proximity'", "'proximit'", "''", "logged", "{}", "'verifie??", "?")]),
    tpl("v_serial", [vo("serial-number", v) for v in ("'????'", "???", "''", "'" + "a" * 127 + "'", "'" + "a" * 128 + "'", "'" + "a" * 300 + "'", "{}", "[1]", "{'a':1}")]),
    tpl("v_time", [vo("created-on", v) for v in ("'20??-??-02T03:04:05Z'", "'2023-01-??T??:04:05Z'", "'2023-01-02T03:??:??Z'", "'2023-01-02???:04:05?'", "'2023-01-02T03:04:05Z??", "'2023-01-02T03:04:05'", "'2023-01-02T03:04:05Z" + "1" * 60 + "'", "''", "{}")]),
    tpl("v_time2", [vo(k, "'2023-01-02T03:04:0??") for k in ("expires-on", "last-renewal-date")] + [vo(k, "'2023-?2-02T03:04:05Z'") for k in ("expires-on", "last-renewal-date")]),
    tpl("v_b64", [vo("nonce", v) for v in ("'????'", "'QU?'", "''", "'?'", "QUJD", "{}", "'QUJDR???'")]),
] + [tpl("v_b64_%d" % i, [vo(k, v) for v in ("'Q???'", "''")]) for i, k in enumerate(["idevid-issuer", "pinned-domain-cert", "prior-signed-voucher-request", "proximity-registrar-cert"])] + [
    tpl("struct", ["{%s:???" % R, "{%s:???}" % R, "{%s:{}}??" % R, "{%s:{}??" % R, "{??%s:{}}" % R, "??{%s:{}}" % R, "{%s?{}}" % R, "{%s??{}}" % R, "{}{%s:{}}" % R, "[%s,{}]" % R, "{%s}" % R, "{'a':%s,'b':{}}" % R,
        "{%s:{},'x':1}" % R, "{'x':1,%s:{}}" % R, "{'x':{%s:{}}}" % R, "{'x':{'serial-number':'A'},%s:{}}" % R, "{'x':[1,{'a':2}],%s:{'nonce':'QQ=='}}" % R, "{%s:{'serial-number':'A'},%s:{'serial-number':'B'}}" % (R, R), " { %s : { } } " % R]),
    tpl("struct2", ["{%s:{'serial-number':'A'?'nonce':'QQ=='}}" % R, "{%s:{'serial-number'?'A','nonce':'QQ=='}}" % R, "{%s:{'serial-number':'A','nonce'}}" % R, "{%s:{'serial-number':'A','nonce':'QQ=='??}" % R,
        "{%s:{'serial-number':{'assertion':'logged'}}}" % R, "{%s:{'serial-number':['assertion','logged']}}" % R, "{%s:{'serial-number':{},'foo':'bar'}}" % R, "{%s:{'nonce':'QQ==','nonce':'QUI='}}" % R,
        "{%s:{'serial-number':'A','serial-number':'BC','serial-number':'D?'}}" % R, "{'a'?'b',%s:{}}" % R, "{'a':?,%s:{}}" % R, "{%s:{serial-number:'A'}}" % R, "{ietf-voucher:voucher:{}}"]),
    tpl("many", ["{%s:{%s}}" % (R, ",".join(["'serial-number':'A'"] * n)) for n in (14, 15, 16)] + ["{'x':[%s],%s:{}}" % (",".join(["1"] * n), R) for n in (26, 27, 28, 29)], bounds="texts of about 32 tokens"),
    tpl("full", [FULLV, FULLV.replace("AB1", "A??"), FULLV.replace("'RQ=='", "'R??='"), FULLV.replace("true", "?ru?")]),
    tpl("cut", [FULLV], fn="h_cut", bounds="every prefix of a voucher with all attributes"),
    tpl("oom", [FULLV, vo("nonce", "'QQ=='"), vo("serial-number", "'x'")], fn="h_oom", bounds="each allocation failing"),
    S("null", "c06.c", "h_null", VU, bounds="missing argument"),
])

REQ = Unit("src/voucher/request.c", ren={"verify_cms_voucher": "x_verify_cms_voucher", "sign_cms_voucher": "x_sign_cms_voucher"})
RU = [REQ, VOU, ARR, KV, SERF, OSCF]
B10 = "serial numbers of 0..2 bytes, certificates and nonces of 1..2 bytes, every content, every time, every presence of optional parts, each step failing"
WIT10 = {"h_pledge": ["signed", "signing failed", "no serial number"], "h_reg": ["signed", "no serial number in the pledge's request", "something else does not match"],
    "h_masa": ["signed", "request does not match", "policy refuses"], "h_accept": ["accepted", "registrar certificate not verified", "wrong nonce"]}
def rq(name, fn, defs=(), **kw):
    kw["wit"] = WIT10.get(fn, ["missing argument"] if "null" in fn else ["out of memory"])
    return S(name, "c10.c", fn, RU, list(defs), bounds=kw.pop("bounds", B10), **kw)
check("C10", [rq("pledge_request", "h_pledge")])
check("C11", [rq("registrar_request", "h_reg", ["-DNOCONT"], timeout=800), rq("missing", "h_reg_null")])
check("C12", [rq("registrar_request", "h_reg", ["-DNOCOND"], timeout=800)])
check("C13", [rq("masa", "h_masa", ["-DNOCONT"], timeout=800), rq("missing", "h_masa_null")])
check("C14", [rq("masa", "h_masa", ["-DNOCOND"], timeout=800)])
check("C15", [rq("accept", "h_accept"), rq("missing", "h_accept_null")])
check("C16", [rq(n, "h_" + n, ["-DOWN", "-DSL=1", "-DCL=1"], bounds="serial numbers of 0..1 bytes, certificates of 1 byte; " + w) for n, w in (
    ("pledge", "each step failing"), ("pledge_oom", "each allocation failing"), ("reg", "each step failing"), ("reg_null", "missing arguments"), ("reg_oom", "each allocation failing"),
    ("masa", "each step failing"), ("masa_null", "missing arguments"), ("masa_oom", "each allocation failing"),
    ("accept", "each step failing"), ("accept_null", "missing arguments"), ("accept_oom", "each allocation failing"))])

OSSL = Unit("src/voucher/crypto_ossl.c")
OU = [OSSL, ARR, KV, OSCF]
def os_(name, src, fn, wit, bounds, defs=(), units=OU, **kw):
    return S(name, src, fn, units, list(defs), wit=wit, bounds=bounds, **kw)
BL = "lists of 0..2 certificates or none, stores of 0..2 certificates, revocation lists or unknown elements or none, every content of 1..2 bytes each"
check("C17", [
    os_("verify", "c17.c", "h_verify", ["verified", "signature refused", "unknown store element"], BL + ", messages of 0..2 bytes, contents of 0..2 bytes, 0..2 signers"),
    os_("verify_step", "c17.c", "h_verify_step", ["library failure", "verified"], "2 certificates, 3 store elements or no store, 2 signers; each library call failing"),
    os_("verify_oom", "c17.c", "h_verify_oom", ["out of memory"], "2 certificates, 3 store elements or no store, 2 signers; each allocation failing"),
    os_("voucher", "c17v.c", "h_check", ["verified", "signature refused", "not a voucher"], "verified texts with any serial number of 2 characters, no voucher, or empty; each answer of the signature check", units=VU),
    os_("voucher_oom", "c17v.c", "h_check_oom", ["out of memory"], "each allocation failing", units=VU),
])
check("C18", [
    os_("sign", "c17.c", "h_sign", ["signed", "refused"], "the three signing functions, contents of 0..3 bytes, " + BL),
    os_("sign_step", "c17.c", "h_sign_step", ["library failure", "signed"], "2 certificates; each library call failing"),
    os_("sign_oom", "c17.c", "h_sign_oom", ["out of memory"], "2 certificates; each allocation failing"),
    os_("voucher", "c17v.c", "h_vsign", ["signed", "signing failed"], "the three voucher signing functions, serial numbers of 1..2 bytes, nonce of 1 byte or none", units=VU),
    os_("voucher_oom", "c17v.c", "h_vsign_oom", ["out of memory", "signed"], "each allocation failing", units=VU),
])
check("C19", [
    os_("chain", "c17.c", "h_chain", ["chain built", "chain without a store", "no chain", "bad signature", "ends elsewhere", "unknown store element"], BL + ", chains of 1..4 certificates or none, each link's signature good or bad, the end self-signed or not"),
    os_("chain_step", "c17.c", "h_chain_step", ["library failure"], "2 certificates, 3 store elements; each library call failing"),
    os_("chain_oom", "c17.c", "h_chain_oom", ["out of memory"], "2 certificates, 3 store elements; each allocation failing"),
])

OSSLG = Unit("src/voucher/crypto_ossl.c", ren={"i2d_X509": "x_i2d_X509", "d2i_X509": "x_d2i_X509"})
OUG = [OSSLG, ARR, KV, OSCF]
check("C20", [
    os_("keygen", "c20.c", "h_keygen", ["generated"], "RSA key of any size, EC key, 0..3 random bytes", units=OUG),
    os_("keygen_step", "c20.c", "h_keygen_step", ["library failure", "generated"], "each library call failing with zero or a negative result", units=OUG),
    os_("keygen_oom", "c20.c", "h_keygen_oom", ["generated"], "each allocation failing", units=OUG),
    os_("gen", "c20.c", "h_gen", ["generated", "contradictory validity"], "EC and RSA, any serial number and validity, absolute end or not, issuer and subject of 0..2 entries or none with any values of 1..2 characters, with and without constraints, missing arguments", units=OUG),
    os_("gen_step", "c20.c", "h_gen_step", ["library failure", "bad signature", "generated"], "2 issuer and 2 subject entries; each library call failing", units=OUG),
    os_("sign", "c20.c", "h_sign", ["signed", "refused"], "keys and certificates of 2..3 bytes; missing arguments", units=OUG),
    os_("sign_step", "c20.c", "h_sign_step", ["library failure", "bad signature", "signed"], "each library call failing", units=OUG),
])

OUF = [Unit("src/voucher/crypto_ossl.c", ren={"fopen": "x_fopen", "fclose": "x_fclose"}), ARR, KV, OSCF]
check("C21", [os_(n, "c21.c", "h_" + n, w, b, units=OUF) for n, w, b in (
    ("conv", ["decoded", "encoded", "copied"], "any certificate or key of 0..2 bytes"),
    ("conv_step", ["library failure", "decoded", "encoded", "copied"], "each library call failing"),
    ("conv_oom", ["decoded"], "each allocation failing"),
    ("files", ["read", "written"], "any file name of 2 characters, any certificate, key or message of 2 bytes"),
    ("files_step", ["library failure", "read", "written"], "each library call failing"),
    ("files_oom", ["read", "written"], "each allocation failing"),
    ("meta", ["extracted", "serial number"], "issuer and subject of 0..2 entries of 5 kinds, one unknown, any values of 1..2 characters, any number"),
    ("meta_all", ["extracted", "serial number"], "issuer and subject of 0..1 entries of any known kind"),
    ("meta_nul", ["extracted", "text with NUL"], "name values with NUL bytes"),
    ("meta_step", ["library failure", "extracted"], "0..2 entries; each library call failing"),
    ("meta_oom", ["out of memory", "extracted"], "0..2 entries; each allocation failing"),
    ("serial", ["serial number", "no serial number"], "subjects of 0..3 entries with similar names"),
    ("issuer", ["extracted"], "any issuer text of 0..3 bytes"),
    ("issuer_step", ["library failure", "extracted"], "each library call failing"),
    ("issuer_oom", ["extracted"], "each allocation failing"),
)])

CONF = Unit("src/brski/config.c", ren={"fopen": "x_fopen", "fclose": "x_fclose", "access": "x_access"})
CU = [CONF, ARR, OSCF]
def cf(name, fn, wit, bounds, defs=(), **kw): return S(name, "c22.c", fn, CU, list(defs), wit=wit, bounds=bounds, **kw)
check("C22", [
    cf("one", "h_one", ["loaded", "list"], "each of the 34 settings missing, empty, any value of 1..2 characters, or given twice, all others missing, empty or present; same keys in other sections and similar keys present"),
    cf("two", "h_two", ["loaded", "list"], "each pair of settings missing, empty or any value of 1..2 characters, all others missing or present", tier="thorough", timeout=3000),
    cf("long", "h_long", ["loaded", "list"], "each setting with a value of 255 or 480 characters (times: 20)"),
    cf("list", "h_list", ["four values"], "each list setting given 0..4 times, any value of 0..1 characters each time, between other lines"),
    cf("oom", "h_oom", ["loaded", "out of memory"], "all settings missing, empty or present, lists of 2; each allocation failing"),
    cf("nofile", "h_nofile", ["missing file"], "the file exists or not"),
])
check("C23", [
    cf("certs", "h_certs", ["loaded", "failed"], "0..4 files or no list, certificates of 1..2 bytes, the same file several times or not, any file failing to load"),
    cf("certs_oom", "h_certs", ["loaded", "failed"], "as certs, each allocation failing", ["-DOOM"]),
])

OSX = Unit("src/utils/os.c", ren={k: "x_" + k for k in ("time", "localtime", "localtime_r")})
OSG = Unit("src/utils/os.c", ren={"realloc": "x_realloc", "reallocarray": "x_reallocarray"})
def osf(name, fn, wit, bounds, units=None, defs=(), **kw): return S(name, "c24.c", fn, units or [OSCF], ["-DMAXL=6"] + list(defs), wit=wit, bounds=bounds, **kw)
check("C24", [
    osf("strlcpy", "h_strlcpy", ["cut", "fits"], "every text of 0..6 characters into every destination of 0..6 bytes"),
    osf("strnlen", "h_strnlen", ["bound", "length"], "every buffer of 0..6 bytes, every bound of 0..8"),
    osf("strndup", "h_strndup", ["copied"], "every buffer of 0..6 bytes, every bound of 0..8"),
    osf("strndup_oom", "h_strndup", ["copied", "out of memory"], "as strndup, each allocation failing", defs=["-DOOM"]),
    osf("strdup", "h_strdup", ["copied"], "every text of 0..6 characters"),
    osf("strdup_oom", "h_strdup", ["copied", "out of memory"], "as strdup, each allocation failing", defs=["-DOOM"]),
    osf("memdup", "h_memdup", ["copied"], "every block of 1..6 bytes, or none"),
    osf("memdup_oom", "h_memdup", ["copied", "out of memory"], "as memdup, each allocation failing", defs=["-DOOM"]),
    osf("zalloc", "h_zalloc", ["copied"], "1..6 bytes"),
    osf("zalloc_oom", "h_zalloc", ["copied", "out of memory"], "1..6 bytes, each allocation failing", defs=["-DOOM"]),
    osf("grow", "h_grow", ["refused", "grown"], "every 64-bit element count, element sizes 0..63 and 20 sizes from 100 to 2^64-1", units=[OSG]),
    osf("now", "h_now", ["time", "no time"], "every calendar time, known or not", units=[OSX]),
])
LOGU = Unit("src/utils/log.c", ren={k: "x_" + k for k in ("fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "fflush", "setbuf", "setvbuf", "umask", "fopen", "fclose", "strerror", "gettimeofday",
    "localtime", "localtime_r", "stderr", "stdout")})
def lg(name, fn, wit, bounds, defs=(), **kw): return S(name, "c25.c", fn, [LOGU], (["-DMAXN=2"] if "-DMAXN=4" not in defs else []) + list(defs), wit=wit, bounds=bounds, **kw)
check("C25", [
    lg("filter", "h_emit", ["emitted", "not emitted"], "every level, every configured level 0..255, silenced or not, with and without lock, with errno 0 or 13 or without", ["-DFILTER"]),
    lg("format", "h_emit", ["emitted", "not emitted"], "every level, with and without header, colour and log file, with errno 0, 1000 or without; any message argument of 0..2 characters"),
    lg("open", "h_open", ["opened", "not opened"], "the log file can be opened or not"),
    lg("time", "h_time", ["time"], "each field of the calendar time with each value, years 0 to 9999"),
    lg("hex", "h_hex", ["cut", "fits"], "every data of 0..2 bytes, every buffer of 0..6 bytes, both letter cases, missing data or buffer"),
    lg("hex_more", "h_hex", ["cut", "fits"], "every data of 0..4 bytes, every buffer of 0..10 bytes, both letter cases, missing data or buffer", ["-DMAXN=4"], tier="thorough"),
])

PLU = [Unit("src/brski/pledge/pledge_utils.c"), ARR, KV, SERF, Unit("src/utils/os.c", ren={"get_localtime": "real_get_localtime"})]
def pl(name, wit, bounds, *defs, fn="h_request", **kw):
    d = dict(CMSMAX=2, NTIME=0, NNONCE=0, NMISS=0); d.update(x.split("=") for x in defs if "=" in x)
    return S(name, "c26.c", fn, PLU, ["-D%s=%s" % kv for kv in d.items()] + ["-D" + x for x in defs if "=" not in x], wit=wit, bounds=bounds, **kw)
check("C26", [
    pl("time", ["request", "failed"], "any or a malformed creation time, or none; both forms of export; 0..2 additional certificates or none", "NTIME=5"),
    pl("nonce", ["request", "failed"], "any nonce text of 4 characters, empty, malformed, or none", "NNONCE=4"),
    pl("missing", ["request", "failed"], "serial number, certificate file or key file not configured", "NMISS=3"),
    pl("step", ["request", "failed"], "each step failing", "STEP", "NTIME=1", "NNONCE=1", "CMSMAX=1"),
    pl("oom", ["request", "failed"], "each allocation failing", "OOM", "NTIME=1", "NNONCE=1", "CMSMAX=1"),
    pl("null", ["missing"], "missing arguments", fn="h_null"),
])

REG = Unit("src/brski/registrar/registrar_api.cpp", ren={k: "x_" + k for k in ("fopen", "fprintf", "fputs", "fflush", "fclose", "time")})
SRU = [REG, ARR, KV, SERF, Unit("src/utils/os.c", ren={"get_localtime": "real_get_localtime"})]
def rg(name, fn, wit, bounds, *defs, **kw):
    d = dict(NBODY=0, NMISS=0, NSERIAL=1, NLIST=0); d.update(x.split("=") for x in defs if "=" in x)
    return S(name, "c27.cpp", fn, SRU, ["-D%s=%s" % kv for kv in d.items()] + ["-D" + x for x in defs if "=" not in x], wit=wit, bounds=bounds, **kw)
check("C27", [
    rg("body", "h_voucher", ["relayed", "body does not decode", "error of the MASA"], "any body of 4 characters, empty, malformed, or 8 characters; any status and answer of 0..2 bytes of the MASA", "NBODY=4"),
    rg("config", "h_voucher", ["relayed", "error of the MASA"], "each file setting missing; lists missing, empty or of 1 certificate; serial number missing or of 0..2 characters", "NMISS=5", "NSERIAL=3", "NLIST=2", "INDEP", "FEWANS"),
    rg("long", "h_voucher", ["relayed", "error of the MASA"], "a body and an answer of 8192 characters, a signed request of 6144 bytes, a serial number of 1024 characters", "LONG=1024", "FEWANS"),
    rg("step", "h_voucher", ["relayed", "error of the MASA"], "each step failing", "STEP", "NLIST=2", "FEWANS"),
    rg("oom", "h_voucher", ["relayed", "error of the MASA"], "each allocation failing", "OOM", "MAXALLOC=60", "NLIST=2", "FEWANS"),
])
check("C28", [
    rg("body", "h_enroll", ["recorded", "refused"], "any body of 4 characters, empty, malformed, or 8 characters", "ENROLL", "NBODY=4"),
    rg("config", "h_enroll", ["recorded", "refused"], "each file setting missing; serial numbers missing or of 0..2 characters", "ENROLL", "NMISS=2", "NSERIAL=3", "FEWANS"),
    rg("long", "h_enroll", ["recorded", "refused"], "a body of 8192 characters, a certificate of 6144 bytes, a serial number of 1024 characters", "ENROLL", "STEP", "LONG=1024", "FEWANS"),
    rg("step", "h_enroll", ["recorded", "not recorded", "refused"], "each step failing", "ENROLL", "STEP", "FEWANS"),
    rg("oom", "h_enroll", ["recorded", "refused"], "each allocation failing", "ENROLL", "OOM", "MAXALLOC=60", "FEWANS"),
])

MAS = Unit("src/brski/masa/masa_api.cpp")
OSL = Unit("src/utils/os.c", ren={"get_localtime": "real_get_localtime"})
def ms(name, wit, bounds, *defs, fn="h_masa", **kw):
    d = dict(NBODY=0, NMISS=0, NTIME=0, NLIST=0); d.update(x.split("=") for x in defs if "=" in x)
    return S(name, "c29.cpp", fn, [MAS, ARR, KV, SERF, OSL], ["-D%s=%s" % kv for kv in d.items()] + ["-D" + x for x in defs if "=" not in x], wit=wit, bounds=bounds, **kw)
check("C29", [
    ms("body", ["voucher", "refused"], "any body of 4 characters, empty, malformed, or 8 characters", "NBODY=4", "SMALLT"),
    ms("config", ["voucher", "refused"], "each file setting missing, any or a malformed or missing expiry, lists missing or of 1 certificate", "SMALL", "NMISS=3", "NTIME=1", "NLIST=2"),
    ms("lists", ["voucher"], "each list missing or of 1 certificate", "SMALL", "NLIST=1", "INDEP", "LONE"),
    ms("time", ["voucher", "refused"], "any of 10^4 expiry times of two forms, malformed or missing expiry", "NTIME=4", "SMALLB"),
    ms("step", ["voucher", "refused", "success after failure"], "each step of two consecutive requests on the same server failing, lists missing or empty, bodies that decode or not", "SMALL", "STEP", "NLIST=1", "NBODY=1", "TWICE"),
    ms("oom", ["voucher", "refused", "success after failure"], "each allocation failing, then a second request on the same server", "SMALL", "OOM", "MAXALLOC=60", "NLIST=2", "NBODY=1", "TWICE"),
    ms("long", ["voucher"], "a body of 8192 characters, a voucher of 6144 bytes", "SMALL", "LONG=1024"),
])
SRN = [REG, ARR, KV, SERF, Unit("src/utils/os.c", ren={k: "x_" + k for k in ("time", "localtime", "localtime_r")})]
NB = "one request, another served completely at any point where the first calls a library, crypto or network operation or logs; serial numbers missing or of 1 character"
def rn(name, a, b, wit, *defs, **kw):
    d = dict(NBODY=0, NMISS=0, NSERIAL=2, NLIST=0, NPOINTS=150, FIRST=a, SECOND=b)
    return S(name, "c27.cpp", "h_nest", SRN, ["-D%s=%s" % kv for kv in d.items()] + ["-DNEST", "-DFEWANS", "-DLONE"] + list(defs), wit=wit, **kw)
NESTS = [("voucher", "voucher", ["relayed", "interleaved"]), ("enroll", "enroll", ["recorded", "interleaved"]), ("voucher", "enroll", ["relayed", "recorded", "interleaved"]),
         ("enroll", "voucher", ["relayed", "recorded", "interleaved"])]
check("C32", [
    ms("masa", ["voucher", "interleaved"], "MASA: " + NB, "SMALL", "NLIST=2", "NEST", "NPOINTS=120"),
    ms("masa_step", ["voucher", "refused", "interleaved"], "MASA: " + NB + "; every step of each request failing", "SMALL", "NEST", "NPOINTS=120", "STEP", "NLIST=1", tier="thorough", timeout=3000),
] + [rn("%s_%s" % (a, b), a, b, w, bounds="%s, then %s: " % (a, b) + NB) for a, b, w in NESTS]
  + [rn("%s_%s_step" % (a, b), a, b, w, "-DFAIL2", bounds="%s, then %s: " % (a, b) + NB + "; each step of the other failing", tier="thorough", timeout=3000) for a, b, w in NESTS])

PLR = Unit("src/brski/pledge/pledge_request.cpp", ren={k: "x_" + k for k in ("time", "rand", "srand")})
def pr(name, fn, wit, bounds, *defs, **kw):
    d = dict(NANS=0, NENR=0, NNONCE=0, NMISS=0, NLIST=0); d.update(x.split("=") for x in defs if "=" in x)
    return S(name, "c30.cpp", fn, [PLR, ARR, KV, SERF, OSL, Unit("src/utils/log.c", ren={"log_levels": "real_log_levels", "log_errno_error": "real_log_errno_error"})], ["-D%s=%s" % kv for kv in d.items()] + ["-D" + x for x in defs if "=" not in x], wit=wit, bounds=bounds, **kw)
ANYST = "any status of each answer, certificates present or not; "
check("C30", [
    pr("boot", "h_boot", ["bootstrapped", "voucher refused", "failed"], ANYST + "any answer of 4 characters, malformed or empty; each step failing", "NANS=4", "STEP"),
    pr("boot_nonce", "h_boot", ["bootstrapped", "failed"], ANYST + "nonce malformed or none or given; lists missing, empty or of 1 certificate; settings missing", "NANS=1", "NNONCE=2", "NMISS=4", "NLIST=2"),
    pr("boot_oom", "h_boot", ["bootstrapped", "failed"], ANYST + "each allocation failing", "NNONCE=1", "OOM", "MAXALLOC=40", "NLIST=2"),
    pr("boot_long", "h_boot", ["bootstrapped", "failed"], ANYST + "request and answer of 8192 characters, a serial number of 1024 characters", "LONG=1024"),
    pr("verify", "h_verify", ["verified", "failed"], "any nonce of 4 characters, malformed or none; lists missing, empty or of 1 certificate; each step failing", "STEP", "NNONCE=4", "NMISS=1", "NLIST=2"),
    pr("verify_oom", "h_verify", ["verified", "failed"], "each allocation failing", "OOM", "MAXALLOC=30", "NNONCE=2", "NLIST=2"),
    pr("enrol", "h_enrol", ["enrolled", "enrolment refused", "failed"], ANYST + "any answer of 4 characters, malformed or empty, to the enrolment; each step failing", "NENR=4", "STEP"),
    pr("enrol_config", "h_enrol", ["enrolled", "failed"], ANYST + "answers that decode or not; settings missing", "NANS=1", "NENR=1", "NNONCE=2", "NMISS=4", "NLIST=1"),
    pr("enrol_oom", "h_enrol", ["enrolled", "failed"], ANYST + "each allocation failing", "NNONCE=1", "OOM", "MAXALLOC=80", "NLIST=2"),
    pr("enrol_long", "h_enrol", ["enrolled", "failed"], ANYST + "request, answers of 8192 characters, certificates of 3072 bytes", "LONG=1024"),
])

WH = ["-DWITH_CPPHTTPLIB_LIB", "-include", os.path.join(HERE, "..", "harness", "fake", "fakehttplib.h")]
HTU = [Unit("src/brski/" + f, defs=WH) for f in ("http/httplib_wrapper.cpp", "http/https_client.cpp", "http/https_server.cpp", "masa/masa_server.cpp", "registrar/registrar_server.cpp")] + [OSL]
def ht(name, fn, wit, bounds, *defs, **kw):
    d = dict(NMETH=0, NBODY=0, NHEAD=0, NTHROW=0, NLISTEN=0, NMISS=0); d.update(x.split("=") for x in defs if "=" in x)
    return S(name, "c31.cpp", fn, HTU, ["-D%s=%s" % kv for kv in d.items()] + ["-D" + x for x in defs if "=" not in x], wit=wit, bounds=bounds, **kw)
check("C31", [
    ht("routes", "h_serve", ["stopped", "served", "not found", "error answer"], "both servers; 14 paths (10 known) and 7 methods; any status, empty request and answer", "NMETH=6"),
    ht("bodies", "h_serve", ["stopped", "served", "not found", "error answer"], "both servers; 14 paths by POST; any status, requests and answers of 0..2 bytes", "NBODY=2"),
    ht("headers", "h_serve", ["stopped", "served", "not found", "error answer"], "both servers; 14 paths by POST; 0..3 request headers of two names, any value of one byte", "NHEAD=3"),
    ht("exceptions", "h_serve", ["stopped", "served", "exception", "error answer"], "both servers; 14 paths, POST or GET; the handler answers or throws, a standard exception or any other", "NTHROW=2", "NMETH=1"),
    ht("start", "h_serve", ["stopped", "no server"], "both servers; listening fails, throws or the server cannot be made; certificate or key not configured", "NLISTEN=3", "NMISS=2"),
    ht("client", "h_client", ["answered", "no answer"], "any status 0..999, request and answer of 0..2 bytes; the certificate copy fails or not"),
    ht("client_ca", "h_client_ca", ["answered", "no answer"], "any status 0..999, request and answer of 0..2 bytes, a certificate of 0..2 bytes"),
])

MAINU = Unit("src/brski/brski.cpp", defs=["-I" + os.path.join(HERE, "..", "harness", "fake"), "-Dmain=brski_main"],
             ren=dict({k: "x_" + k for k in ("fprintf", "printf", "vfprintf", "fputs", "puts", "fputc", "putchar", "putc", "fwrite", "fflush", "read", "fread", "getchar", "exit", "getopt", "stdout", "stderr")}))
def mn(name, fn, wit, bounds, *defs, **kw):
    d = dict(NARG=0, NTOK=0, LONGNAME=1, FAILS=0); d.update(x.split("=") for x in defs if "=" in x)
    return S(name, "c33.cpp", fn, [MAINU], ["-D%s=%s" % kv for kv in d.items()] + ["-D" + x for x in defs if "=" not in x], wit=wit, bounds=bounds, **kw)
check("C33", [
    mn("command", "h_command", ["done", "bad command"], "any command text of 0..10 characters"),
    mn("options", "h_options", ["done", "version", "help", "bad option", "bad command", "no arguments"], "0..2 arguments, each an option of one or two characters of any kind, a word of any character or a command", "NARG=2", "NTOK=9"),
    mn("options_all", "h_options", ["done", "failed", "version", "help", "bad option", "bad command", "no arguments"], "0..3 arguments, each an option of one or two characters of any kind, a word of any character or a command", "NARG=3", "NTOK=9", tier="thorough", timeout=1500),
    mn("full", "h_full", ["done", "failed"], "every command with -c, -i and -o, file names of 0, 1 or 300 characters; each step failing", "LONGNAME=300", "FAILS=1"),
    mn("address", "h_address", ["done", "failed"], "every command with a port of 2, 3 or 5 digits, any in one or two places, an address of 0..3 characters of any kind; each allocation failing", "OOM"),
    mn("stdin", "h_stdin", ["done", "failed"], "vmasa with input of 0..3, 4094..4097 and 8200 bytes"),
])

TECH = {}
NOTE = {}
NOTE_DEFAULT = ("Every assertion of the harness, and every memory-safety check CBMC generates for the encoded functions, is decided by the "
                "solver for all inputs within the bounds stated in the evidence; trusts CBMC, goto-cc and the stated stand-ins for library calls.")
