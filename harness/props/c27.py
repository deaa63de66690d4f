from common import *

DEC = {"AccessProfile": lambda d: d.access_profile(), "SubProfile": lambda d: d.subprofile(), "SubBand": lambda d: d.subband(),
       "ChannelStatusIdentifier": lambda d: d.csi()}
SIZE = {"AccessProfile": 65, "SubProfile": 2, "SubBand": 7, "ChannelStatusIdentifier": 2}


def check(w, case, rec):
    m = case["m"]
    want = enc(m)
    if m["t"] == "AccessProfile" and len(m["sub_bands"]) < 8:
        # fewer subbands: the bytes are still those of the parts
        r = build(w, m, ["hex", "hex2", "dump", "str", "hex3"])
        same([r["hex"], r["hex2"], r["hex3"], r["dump"]], [want.hex()] * 3 + [m], "profile with %d subbands" % len(m["sub_bands"]))
        refused(parse(w, "AccessProfile", want), "profile of %d bytes" % len(want))
        rec.label("short")
    else:
        same(len(want), SIZE[m["t"]], "reference size")
        roundtrip(w, m, junk=bytes.fromhex(case["junk"]))
        refused(parse(w, m["t"], want[:case["cut"] % len(want)]), "%s cut to %d bytes" % (m["t"], case["cut"] % len(want)))
    rec.nontrivial()
    rec.label(m["t"])


def sp(b=0, e=0, m=0):
    return {"t": "SubProfile", "subband_bitmap": b, "scan_automation_period": {"t": "CT", "exp": e, "mant": m}}


def sb(s=0, e=0, p=0, c=86, d=255):
    return {"t": "SubBand", "channel_index_start": s, "channel_index_end": e, "eirp": p, "cca": c, "duty": d}


CH = {"t": "ChannelHeader", "channel_coding": E("ChannelCoding", "FEC_PN9"), "channel_class": E("ChannelClass", "HI_RATE"), "channel_band": E("ChannelBand", "BAND_868")}


def prof(n=8, k=4, h=CH, base=0):
    return {"t": "AccessProfile", "channel_header": h, "sub_profiles": [sp(base + i & 255, i % 8, base + i & 31) for i in range(k)],
            "sub_bands": [sb(base * 256 + i & 0xFFFF, 65535 - base - i, (base + i) % 256 - 128, base + i & 255, 255 - (base + i & 255)) for i in range(n)]}


def every():
    one = lambda m: {"m": m, "junk": "", "cut": 1}
    for v in range(256):
        yield one(sp(v, 255 - v >> 5, 255 - v & 31))
        yield one(sb(v << 8, v, v - 128, v, 255 - v))
        yield one(prof(base=v))
    for p in (0, 255, 256, 32767, 32768, 65534, 65535):
        yield one(sb(p, 65535 - p, -1))
    for n in range(9):
        yield one(prof(n))
    for b in sorted(ref.ENUM["ChannelBand"]):
        for c in sorted(ref.ENUM["ChannelClass"]):
            for k in sorted(ref.ENUM["ChannelCoding"]):
                yield one(prof(h={"t": "ChannelHeader", "channel_coding": E("ChannelCoding", k), "channel_class": E("ChannelClass", c), "channel_band": E("ChannelBand", b)}))
        for bw in ("kHz25", "kHz200"):
            for i in list(range(0, 1040, 13)) + [255, 256, 511, 512, 1023, 1024, 1039]:
                yield one({"t": "ChannelStatusIdentifier", "channel_band": E("ChannelBand", b), "channel_bandwidth": E("Bandwidth", bw), "channel_index": i})


cases = lambda: st.fixed_dictionaries({"m": st.one_of(gen.access_profile(), gen.access_profile(0), gen.subprofile, gen.subband, gen.csi),
                                       "junk": JUNK.map(lambda b: b.hex()), "cut": st.integers(0, 70)})


def parsing(w, case, rec):
    what, b = case["what"], bytes.fromhex(case["hex"])
    m = decodes(w, what, b, DEC[what])
    if m is not None:
        same(ok(ok(parse(w, what, b, want=("hex",)), "parsing")["hex"], "serialising"), enc(m).hex(), "bytes of the %s parsed from %s" % (what, b.hex()))
    rec.nontrivial(len(b) >= SIZE[what])
    rec.label(what + (" accepted" if m is not None else " rejected"))


@st.composite
def raw(draw):
    what = draw(st.sampled_from(sorted(DEC)))
    n = SIZE[what]
    b = draw(st.one_of(st.binary(min_size=n, max_size=n), st.binary(min_size=n, max_size=n), st.binary(max_size=n + 2)))
    if what == "AccessProfile" and b and draw(gen.BOOL):
        b = bytes([b[0] & 0x8F | 0x30]) + b[1:]
    return {"what": what, "hex": b.hex()}


def csis():
    for hi in range(256):
        for lo in (0, 15, 16, 255):
            yield {"what": "ChannelStatusIdentifier", "hex": "%02x%02x" % (hi, lo)}
        yield {"what": "SubBand", "hex": "0102%02x04%02x06%02x" % (hi, hi, 255 - hi)}
        yield {"what": "AccessProfile", "hex": "%02x" % hi + enc(prof())[1:].hex()}


def sizes(w, case, rec):
    refused(w.call("build", model=case, want=["hex"]), "profile of %s" % (
        short(case)), value_error=True)
    rec.nontrivial()


def wrong():
    for k in (0, 1, 2, 3, 5, 6, 8, 16):
        for n in (0, 1, 8):
            yield prof(n, k)
    for n in (9, 10, 16, 100, 255, 256):
        yield prof(n)
    for k, n in ((3, 9), (5, 9), (0, 256)):
        yield prof(n, k)
    m = prof()
    for bad in (None, 0, {"str": "x"}, sb(), CH, {"t": "CT", "exp": 0, "mant": 0}):
        for i in (0, 3):
            yield dict(m, sub_profiles=m["sub_profiles"][:i] + [bad] + m["sub_profiles"][i + 1:])
    for bad in (None, 0, {"str": "x"}, sp(), CH, [sb()]):
        for i in (0, 7):
            yield dict(m, sub_bands=m["sub_bands"][:i] + [bad] + m["sub_bands"][i + 1:])
    for k in ("channel_header", "sub_profiles", "sub_bands"):
        yield dict(m, **{k: None})
        yield dict(m, **{k: 0})
    for v in (-129, 128, 255, 256):
        yield sb(p=v)
    for v in (-1, 65536):
        yield sb(s=v)
        yield sb(e=v)
    for v in (-1, 256):
        yield sb(c=v)
        yield sb(d=v)
        yield sp(v)
    for v in (-1, 1040, 1041, 2047, 2048, 65535):
        yield {"t": "ChannelStatusIdentifier", "channel_band": E("ChannelBand", "BAND_868"), "channel_bandwidth": E("Bandwidth", "kHz25"), "channel_index": v}


def history(w, case, rec):
    """objects built with defaults, built in full, parsed and changed, one after the other: each keeps its own bytes"""
    models, exp = [], []
    r = w.call("objs", steps=case)["steps"]
    for i, s in enumerate(case):
        if s[0] == "make":
            m = json_copy(s[1])
            d = {"SubProfile": sp(), "SubBand": sb(), "ChannelStatusIdentifier": {
                "channel_band": E("ChannelBand", "NOT_IMPL"), "channel_bandwidth": E("Bandwidth", "kHz25"), "channel_index": 0}}.get(m["t"], {})
            models.append(fill(dict(d, **m)))
        elif s[0] == "parse":
            models.append(DEC[s[1]](ref.Dec(bytes.fromhex(s[2]))))
        else:
            o = models[s[1]]
            for k in s[2][:-1] if s[0] == "set" else s[2]:
                o = o[k]
            if s[0] == "set":
                o[s[2][-1]] = fill(json_copy(s[3]))
            elif s[0] == "append":
                o.append(fill(json_copy(s[3])))
            else:
                o.pop()
        same([ok(x, "serialising") for x in ok(r[i], "step %d, %s" % (i, short(s, 200)))["all"]], [enc(m).hex() for m in models],
             "bytes of all objects after step %d, %s" % (i, short(s, 200)))
    rec.nontrivial(any(s[0] in ("set", "append", "pop") for s in case))
    rec.label("objects=%d" % len(models))


def json_copy(m):
    import json
    return json.loads(json.dumps(m))


def fill(m):
    """default values written out"""
    if isinstance(m, list):
        return [fill(x) for x in m]
    if not isinstance(m, dict) or "t" not in m:
        return m
    d = {"SubProfile": sp(), "SubBand": sb()}.get(m["t"], {})
    return {k: fill(v) for k, v in dict(d, **m).items()}


@st.composite
def steps(draw):
    out, kinds = [], []
    part = lambda s, t: st.one_of(st.just({"t": t}), s)
    sps, sbs = part(gen.subprofile, "SubProfile"), part(gen.subband, "SubBand")
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 9))
        if not kinds or k < 4:
            t = draw(st.sampled_from(["AccessProfile", "AccessProfile", "SubProfile", "SubBand"]))
            m = draw({"AccessProfile": gen.M("AccessProfile", channel_header=gen.channel_header, sub_profiles=st.lists(sps, min_size=4, max_size=4),
                                             sub_bands=st.lists(sbs, max_size=8)), "SubProfile": sps, "SubBand": sbs}[t])
            out.append(["make", m])
            kinds.append([t, len(m.get("sub_bands", []))])
        elif k < 6:
            t = draw(st.sampled_from(["AccessProfile", "SubProfile", "SubBand"]))
            m = draw({"AccessProfile": gen.access_profile(), "SubProfile": gen.subprofile, "SubBand": gen.subband}[t])
            out.append(["parse", t, enc(m).hex()])
            kinds.append([t, 8])
        else:
            i = draw(st.integers(0, len(kinds) - 1))
            t, n = kinds[i]
            if t == "SubProfile":
                out.append(draw(st.one_of(st.tuples(st.just(["subband_bitmap"]), gen.BYTE), st.tuples(st.just(["scan_automation_period"]), gen.ct)).map(
                    lambda x: ["set", i, x[0], x[1]])))
            elif t == "SubBand":
                out.append(["set", i, ["eirp"], draw(gen.S8)])
            else:
                c = draw(st.integers(0, 4))
                if c == 0 and n < 8:
                    out.append(["append", i, ["sub_bands"], draw(sbs)])
                    kinds[i][1] += 1
                elif c == 1 and n:
                    out.append(["pop", i, ["sub_bands"]])
                    kinds[i][1] -= 1
                elif c == 2:
                    out.append(["set", i, ["channel_header"], draw(gen.channel_header)])
                elif c == 3 and n:
                    out.append(["set", i, ["sub_bands", draw(st.integers(0, n - 1)), "duty"], draw(gen.BYTE)])
                else:
                    out.append(["set", i, ["sub_profiles", draw(st.integers(0, 3))], draw(sps)])
    return out


FACETS = [
    Facet("every", check, cases=every, rule="every byte of every part, every subband count, every channel"),
    Facet("wrong", sizes, cases=wrong, rule="list sizes, elements and values outside the limits"),
    Facet("profiles", check, cases, quick=1500, rule="random profiles and parts"),
    Facet("bytes", parsing, raw, cases=csis, quick=1500, rule="at least the size of the part"),
    Facet("history", history, steps, quick=600, rule="histories that change an object"),
]
