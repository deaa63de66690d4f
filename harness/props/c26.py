from common import *

BAND = {"BAND_433": "433", "BAND_868": "868", "BAND_915": "915"}
CLASS = {"LO_RATE": "L", "LORA": "R", "NORMAL_RATE": "N", "HI_RATE": "H"}
CODING = {"PN9": "P", "FEC_PN9": "F", "CW": "C"}


def name(h):
    b, c, k = h["channel_band"]["n"], h["channel_class"]["n"], h["channel_coding"]["n"]
    return BAND[b] + CLASS[c] + CODING[k] if b in BAND and k in CODING else None


def check(w, m, rec):
    h = m["channel_header"] if m["t"] == "ChannelID" else m
    t = name(h)
    want = enc(m)
    r = build(w, m, ["hex", "hex2", "dump", "hex3"] + (["str"] if t else []))
    for k in ("hex", "hex2", "hex3"):
        same(r[k], want.hex(), "bytes of %s" % short(m))
    same(r["dump"], m, "fields of the channel")
    p = ok(parse(w, m["t"], want + b"\x99", want=("dump", "hex")), "parsing %s" % want.hex())
    same([ok(p["dump"], "reading"), ok(p["hex"], "serialising"), p["bits"]], [m, want.hex(), 8 * len(want)], "channel parsed from %s" % want.hex())
    if t:
        s = t + "%03d" % m["channel_index"] if m["t"] == "ChannelID" else t
        same(r["str"]["s"], s, "text of %s" % short(m))
        c = ok(w.call("channel", what=m["t"], text=s), "channel from text %s" % s)
        same([c["dump"], c["hex"], c["str"]], [m, want.hex(), s], "channel from text %s" % s)
        rec.label("class=" + h["channel_class"]["n"])
    rec.nontrivial(t is not None)


def headers():
    for b in sorted(ref.ENUM["ChannelBand"]):
        for c in sorted(ref.ENUM["ChannelClass"]):
            for k in sorted(ref.ENUM["ChannelCoding"]):
                h = {"t": "ChannelHeader", "channel_coding": E("ChannelCoding", k), "channel_class": E("ChannelClass", c), "channel_band": E("ChannelBand", b)}
                yield h
                for i in (0, 7, 42, 99, 100, 255, 256, 280, 999, 1000, 9999, 10000, 65535):
                    yield {"t": "ChannelID", "channel_header": h, "channel_index": i}


def every(w, case, rec):
    """a run of indices of one channel header, in bulk"""
    h, lo, hi = case
    ms = [{"t": "ChannelID", "channel_header": h, "channel_index": i} for i in range(lo, hi)]
    t = name(h)
    r = w.call("channels", header=h, lo=lo, hi=hi, text=t)["items"]
    for m, x in zip(ms, r):
        s = t + "%03d" % m["channel_index"]
        same(ok(x, "channel %s" % s), [enc(m).hex(), s, m["channel_index"], enc(m).hex(), m["channel_index"]],
             "bytes, text, parsed index, bytes from text, index from text of channel %s" % s)
    rec.nontrivial()


def runs():
    hs = [h for h in headers() if h["t"] == "ChannelHeader" and name(h)]
    for k in range(64):
        yield [hs[(k * 7) % len(hs)], k * 1024, (k + 1) * 1024]


def parsing(w, case, rec):
    what, b = case["what"], bytes.fromhex(case["hex"])
    m = decodes(w, what, b, lambda d: d.channel_header() if what == "ChannelHeader" else d.channel_id())
    rec.nontrivial(m is None)
    rec.label("accepted" if m is not None else "rejected")


def headbytes():
    for v in range(256):
        yield {"what": "ChannelHeader", "hex": "%02x" % v}
        yield {"what": "ChannelID", "hex": "%02x%02x%02x" % (v, 255 - v, v ^ 0x0F)}
    for h in ("", "32", "3201"):
        yield {"what": "ChannelID", "hex": h}
    yield {"what": "ChannelHeader", "hex": ""}


def malformed(w, case, rec):
    what, s = case["what"], case["text"]
    refused(w.call("channel", what=what, text=s), "%s from text %r" % (what, s))
    rec.nontrivial()


def texts():
    bad = ["", "8", "86", "868", "868N", "868XP000", "868NX000", "867NP000", "968NP000", "000NP000", "BANNP000", "NOTNP000", "868Np000", "868nP000", "NP868000",
           "868PN000", "434NP000", "916NP000", "43NP000", "0868NP000", "86NP0000", "868 NP000", "868NR000", "868LO000", "868NULL000"]
    for s in bad:
        yield {"what": "ChannelID", "text": s}
        yield {"what": "ChannelHeader", "text": s[:5] if len(s) > 5 else s}
    for i in ("", "x", "00x", "x00", "65536", "99999", "100000", "-1", "-100", "0x10", "1.5", "000NP", "12 3", "1e3", "a", "#", "--1", "4294967296"):
        yield {"what": "ChannelID", "text": "868NP" + i}
    for c in "ABDEGHIJKLMNOQRSTUVWXYZ":
        yield {"what": "ChannelHeader", "text": "433N" + c}
    for c in "ABCDEFGIJKMOPQSTUVWXYZ":
        yield {"what": "ChannelHeader", "text": "915" + c + "F"}
    for n in range(1000):
        if n not in (433, 868, 915):
            yield {"what": "ChannelHeader", "text": "%03dNP" % n}


@st.composite
def spoilt(draw):
    s = draw(st.sampled_from(["433", "868", "915"])) + draw(st.sampled_from("LNHR")) + draw(st.sampled_from("PFC"))
    c = draw(st.characters(min_codepoint=33, max_codepoint=126))
    i = draw(st.integers(0, 4))
    t = s[:i] + c + s[i + 1:]
    if t[:3] in BAND.values() and t[3] in "LNHR" and t[4] in "PFC":
        t = "868NX"
    return {"what": "ChannelID", "text": t + "%03d" % draw(st.integers(0, 65535))}


def comparing(w, case, rec):
    a, b = case
    r = ok(w.call("eq", a=a, b=b), "comparing")
    e = a == b
    same([bool(r[k]) for k in ("eq", "ne", "eq_r", "ne_r")], [e, not e, e, not e], "comparison (==, != both ways) of channel headers %s and %s" % (a, b))
    rec.nontrivial(not e)


def pairs():
    hs = [h for h in headers() if h["t"] == "ChannelHeader"]
    for i, a in enumerate(hs):
        for j, b in enumerate(hs):
            if i == j or bin(i ^ j).count("1") == 1 or (i * 7 + j) % 11 == 0:
                yield [a, b]
    for a in hs[::5]:
        for b in (None, 0, enc(a)[0], {"str": "868NP"}, {"tuple": []}, [enc(a)[0]], {"t": "ChannelID", "channel_header": a, "channel_index": 0}, {"t": "CT", "exp": 0, "mant": 0}, {"obj": 1}):
            yield [a, b]


FACETS = [
    Facet("headers", check, cases=headers, rule="channels that have a text form"),
    Facet("every", every, cases=runs, rule="64 runs of 1024 indices, all indices"),
    Facet("channels", check, lambda: st.one_of(gen.channel_id, gen.channel_id, gen.channel_header), quick=1200, rule="channels that have a text form"),
    Facet("bytes", parsing, lambda: st.fixed_dictionaries({"what": st.sampled_from(["ChannelID", "ChannelHeader"]), "hex": hexes(st.binary(max_size=5))}),
          cases=headbytes, quick=400, rule="rejected bytes"),
    Facet("texts", malformed, spoilt, cases=texts, quick=500, rule="texts that name no channel"),
    Facet("comparison", comparing, cases=pairs, rule="pairs of different headers"),
]
