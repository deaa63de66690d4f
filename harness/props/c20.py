from common import *


def check(w, case, rec):
    bs = [enc(m) for m in case["m"]]
    junk = case["junk"]
    built = w.call("buildmany", models=case["m"], want=["hex", "dump", "str", "hex2"])["items"]
    back = w.call("parsemany", items=[{"what": "BgFrame", "hex": b.hex() + junk, "want": ["dump", "hex", "str"]} for b in bs])["items"]
    for m, b, x, p in zip(case["m"], bs, built, back):
        ok(x, "building %s" % short(m))
        same(x["hex"], b.hex(), "bytes of %s" % short(m))
        same(x["hex2"], b.hex(), "bytes of %s, again" % short(m))
        same(x["dump"], m, "fields of the built frame")
        ok(p, "parsing %s" % b.hex())
        same(p["dump"], m, "background frame %s" % b.hex())
        same(p["bits"], 48, "bits read")
        same(p["hex"], b.hex(), "bytes of the parsed frame")
    for b, m in zip(bs[:2], case["m"]):
        s = ok(w.call("dll", type="bg", feeds=[b.hex() + junk])["steps"][0], "radio frame parser")
        same([s["frames"], s["parsed"], s["buffer"], s["nerr"]], [[m], 48, 4 * len(junk), 0], "frames, bits delivered, bits kept, errors")
    rec.nontrivial()


def frame(subnet=5, it="VID", tag=9, payload=300, crc=70):
    return {"t": "BgFrame", "subnet": subnet, "control": {"t": "BgControl", "id_type": E("IdType", it) if isinstance(it, str) else it, "tag": tag},
            "payload": payload, "crc16": crc}


def ranges():
    for i in range(0, 256, 16):
        yield {"m": [frame(subnet=v) for v in range(i, i + 16)], "junk": ""}
        yield {"m": [frame(it=ref.BYVAL["IdType"][v >> 6], tag=v & 63) for v in range(i, i + 16)], "junk": "ff"}
        yield {"m": [frame(payload=v << 8, crc=v) for v in range(i, i + 16)] + [frame(payload=v, crc=v << 8 | 0xFF) for v in range(i, i + 16)], "junk": ""}
    for i in range(0, 65536, 1024):
        yield {"m": [frame(payload=v, crc=65535 - v) for v in range(i, i + 1024, 33)], "junk": ""}


def outside(w, case, rec):
    r = w.call("buildmany", models=[case], want=["hex"])["items"][0]
    refused(r, "background frame %s" % short(case), value_error=True)
    rec.nontrivial()


BAD = {"subnet": [-1, 256, 65536, None, {"str": "1"}, {"float": "1.5"}], "payload": [-1, 65536, 65537, 2 ** 20, None, {"str": "12"}],
       "crc": [-1, 65536, 2 ** 31, None, {"float": "3.0"}], "tag": [-1, 64, 255, 256, None], "it": [None, 0, 3, E("NlsMethod", "NONE"), {"str": "UID"}]}


def outs():
    for k in sorted(BAD):
        for v in BAD[k]:
            yield frame(**{k: v})
    for bad in (None, 5, {"t": "FgControl", "id_type": E("IdType", "UID"), "eirp_index": 3}):
        yield dict(frame(), control=bad)


big = lambda n: st.one_of(st.integers(-2 ** 33, -1), st.integers(n, 2 ** 33))
randoms = lambda: st.one_of(big(256).map(lambda v: frame(subnet=v)), big(65536).map(lambda v: frame(payload=v)), big(65536).map(lambda v: frame(crc=v)),
                            big(64).map(lambda v: frame(tag=v)))


def short_frames(w, case, rec):
    b = bytes.fromhex(case)
    m = decodes(w, "BgFrame", b, lambda d: d.bg_frame())
    rec.nontrivial()
    rec.label("accepted" if m else "rejected")


FACETS = [
    Facet("ranges", check, cases=ranges, rule="every subnet, control byte and sampled payloads and checksums"),
    Facet("frames", check, lambda: st.fixed_dictionaries({"m": st.lists(gen.bg_frame, min_size=1, max_size=6), "junk": JUNK.map(lambda b: b.hex())}),
          quick=700, rule="random frames, alone and followed by other bytes"),
    Facet("outside", outside, cases=outs, rule="values outside each field"),
    Facet("outsides", outside, randoms, quick=300, rule="random values outside each field"),
    Facet("bytes", short_frames, lambda: st.binary(max_size=8).map(lambda b: b.hex()), quick=500, rule="0..8 random bytes"),
]
