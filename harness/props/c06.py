from common import *


def config(w, case, rec):
    r = roundtrip(w, case["m"], junk=bytes.fromhex(case["junk"]))
    a = case["m"] if case["m"]["t"] == "Addressee" else case["m"]["addressee"]
    rec.nontrivial()
    rec.label(a["id_type"]["n"], a["nls_method"]["n"])
    if case["m"]["t"] == "Configuration":
        rec.label(case["m"]["qos"]["resp_mod"]["n"])


configs = lambda: st.fixed_dictionaries({"m": st.one_of(gen.configuration, gen.configuration, gen.addressee),
                                         "junk": JUNK.map(lambda b: b.hex())})


def raw(w, case, rec):
    b = bytes.fromhex(case["hex"])
    what = case["what"]
    m = decodes(w, what, b, {"Configuration": lambda d: d.configuration(), "Addressee": lambda d: d.addressee(),
                             "QoS": lambda d: d.qos()}[what])
    rec.nontrivial(m is not None or len(b) >= 2)
    rec.label("accepted" if m is not None else "rejected")


def firsts():
    """every QoS byte and every addressee control byte"""
    for i in range(256):
        yield {"what": "QoS", "hex": "%02x" % i}
        yield {"what": "Configuration", "hex": "%02x25100081" % i}
        yield {"what": "Addressee", "hex": "%02x5bfedcba98765432100f" % i}
        yield {"what": "Addressee", "hex": "%02x5b9f" % i}
        yield {"what": "Configuration", "hex": "0000%02xa5f1e2d3c4b5a69788" % i}
        yield {"what": "Configuration", "hex": "81%02x31a5f1e2" % i}
    yield {"what": "QoS", "hex": ""}


def fields():
    """every combination of QoS fields; every identifier type with limits"""
    ad = {"t": "Addressee", "id_type": E("IdType", "NOID"), "id": None, "access_class": 1, "nls_method": E("NlsMethod", "NONE")}
    ct = {"t": "CT", "exp": 3, "mant": 17}
    for rm in sorted(ref.ENUM["ResponseMode"]):
        for s in (False, True):
            for c in (False, True):
                yield {"m": {"t": "Configuration", "qos": {"t": "QoS", "resp_mod": E("ResponseMode", rm),
                                                           "retry_mod": E("RetryMode", "RETRY_MODE_NO"), "stop_on_err": s,
                                                           "record": c}, "dorm_to": ct, "addressee": ad}, "junk": ""}
    for n in sorted(ref.ENUM["NlsMethod"]):
        for it, ids in (("NOID", [None]), ("VID", [0, 1, 255, 256, 0x1234, 65535]), ("UID", [0, 1, 2 ** 32, 0x0123456789ABCDEF, 2 ** 63, 2 ** 64 - 1]),
                        ("NBID", [{"t": "CT", "exp": 0, "mant": 0}, {"t": "CT", "exp": 7, "mant": 31}, {"t": "CT", "exp": 2, "mant": 9}])):
            for i in ids:
                yield {"m": dict(ad, id_type=E("IdType", it), id=i, nls_method=E("NlsMethod", n), access_class=0xA5), "junk": "ff"}


raws = lambda: st.one_of(
    st.fixed_dictionaries({"what": st.sampled_from(["Configuration", "Addressee"]), "hex": st.binary(max_size=13).map(lambda b: b.hex())}),
    st.builds(lambda m, k: {"what": m["t"], "hex": enc(m)[:max(0, len(enc(m)) - k)].hex()}, st.one_of(gen.configuration, gen.addressee), st.integers(0, 4)))

FACETS = [
    Facet("first-bytes", raw, cases=firsts, rule="every value of each enumeration byte; non-trivial: accepted, or two bytes or more"),
    Facet("fields", config, cases=fields, rule="every QoS, security method and identifier type"),
    Facet("roundtrip", config, configs, quick=1500, rule="random configurations and addressees"),
    Facet("bytes", raw, raws, quick=900, rule="random and truncated bytes; non-trivial: accepted, or two bytes or more"),
]
