from common import *

LEN = {c: ref.SYS[i][1] for c, i in gen.FILE_ID.items()}
USED = {"EngineeringModeFile": 7}           # the reserved bytes behind the fields are left unread
CLS = sorted(gen.FILES)


def canonical(cls, b):
    """the content with everything reserved set to zero"""
    b = bytearray(b)
    def z(i, mask=0):
        if i < len(b):
            b[i] &= mask
    if cls == "DllConfigFile":
        z(1), z(2)
    elif cls in ("DllStatusFile", "EngineeringModeFile"):
        z(3, 0x7F)
    elif cls == "AccessProfileFile":
        z(0, 0x7F)
    elif cls == "PhyStatusFile":
        for i in range(15, 15 + 3 * b[14], 3):
            z(i, 0xF7)
    if cls == "EngineeringModeFile":
        b[7:] = b"\0\0"
    if cls in ("RootAuthenticationKeyFile", "UserAuthenticationKeyFile"):
        b[16:] = bytes(24)
    if cls == "PhyStatusFile":
        del b[15 + 3 * b[14]:]
    return bytes(b)


def check(w, case, rec):
    m, junk = case["m"], bytes.fromhex(case["junk"])
    cls = m["t"]
    want = enc(m)
    e = shown(m)
    if cls == "FirmwareVersionFile":
        e["application_name"] = {"str": e["application_name"]["str"].ljust(6)}
        e["git_sha1"] = {"str": e["git_sha1"]["str"].ljust(7)}
    if cls == "AccessProfileFile":
        e["access_specifier"] = 0           # not part of the content
    same(build(w, m, ["hex"])["hex"], want.hex(), "bytes of %s" % short(m, 300))
    p = ok(parse(w, cls, want + junk, want=("dump", "hex", "str", "hex2")), "parsing the content of %s" % short(m, 300))
    same(ok(p["dump"], "reading"), e, "parsed %s" % cls)
    for k in ("hex", "hex2"):
        same(ok(p[k], "serialising"), want.hex(), "bytes of the parsed %s" % cls)
    same(p["bits"], 8 * USED.get(cls, len(want)), "bits read for %s" % cls)
    # and the same behind other bytes
    p = ok(parse(w, cls, b"\xa5" * 3 + want, skip=3, want=("dump",)), "parsing the content of %s, not at the start of the stream" % short(m, 300))
    same(ok(p["dump"], "reading"), e, "%s parsed from the middle of a stream" % cls)
    for k in case["cut"]:
        n = k % USED.get(cls, len(want))
        refused(parse(w, cls, want[:n]), "%s cut to %d of %d bytes" % (cls, n, len(want)))
    rec.nontrivial()
    rec.label(cls)


def contents():
    import props.c23 as c23
    for m in c23.limits():
        yield {"m": m, "junk": "", "cut": [len(enc(m)) - 1, 1]}
    ch = {"t": "ChannelHeader", "channel_coding": E("ChannelCoding", "PN9"), "channel_class": E("ChannelClass", "LORA"), "channel_band": E("ChannelBand", "BAND_433")}
    for k in range(128):
        for t in ("RootAuthenticationKeyFile", "UserAuthenticationKeyFile", "SecurityKeyFile"):
            yield {"m": {"t": t, "key": 1 << k}, "junk": "ff", "cut": []}
    for s in range(0, 15, 3):
        p = {"t": "AccessProfile", "channel_header": ch, "sub_profiles": [{"t": "SubProfile", "subband_bitmap": 40 * i + s, "scan_automation_period": {
            "t": "CT", "exp": i, "mant": s}} for i in range(4)], "sub_bands": [{"t": "SubBand", "channel_index_start": 300 * i, "channel_index_end": 65535 - i,
                                                                            "eirp": -128 + 32 * i, "cca": 200 + i, "duty": i} for i in range(8)]}
        yield {"m": {"t": "AccessProfileFile", "access_specifier": s, "access_profile": p}, "junk": "", "cut": list(range(65))}


def arbitrary(w, case, rec):
    cls, b = case["cls"], bytes.fromhex(case["hex"])
    m = decodes(w, cls, b, lambda d: d.file(cls))
    if m is not None:
        p = ok(parse(w, cls, b, want=("hex", "str", "hex2")), "parsing")
        for k in ("hex", "hex2"):
            n = len(canonical(cls, b)) if cls == "PhyStatusFile" else USED.get(cls, LEN[cls])
            same(ok(p[k], "serialising the %s parsed from %s" % (cls, b.hex()))[:2 * n], canonical(cls, b)[:n].hex(), "bytes of the %s parsed from %s" % (cls, b.hex()))
            same(len(p[k]), 2 * (n if cls == "PhyStatusFile" else LEN[cls]), "number of digits of the serialised content")
        ok(p["str"], "describing")
    rec.nontrivial(len(b) >= (15 if cls == "PhyStatusFile" else LEN[cls]))
    rec.label(cls + (" accepted" if m is not None else " rejected"))


@st.composite
def content(draw):
    cls = draw(st.sampled_from(CLS))
    if cls == "PhyStatusFile":
        n = draw(st.integers(0, 10))
        k = n if draw(st.booleans()) else draw(st.integers(0, 10))
        b = draw(st.binary(min_size=12, max_size=12)) + bytes(draw(st.sampled_from([[0, 0], [3, 232], [3, 233], [1, 255], [255, 255]]))) + bytes([n])
        b += b"".join(enc(draw(gen.csi)) + bytes([draw(gen.BYTE)]) for _ in range(k)) if draw(st.integers(0, 2)) else draw(st.binary(min_size=3 * k, max_size=3 * k))
    elif cls in ("FactorySettingsFile", "FirmwareVersionFile", "EngineeringModeFile", "DllStatusFile", "AccessProfileFile") and draw(st.integers(0, 4)):
        b = bytearray(enc(draw(gen.FILES[cls])))
        for _ in range(draw(st.integers(1, 4))):
            b[draw(st.integers(0, len(b) - 1))] = draw(gen.BYTE)
        b = bytes(b)
    else:
        b = draw(st.binary(min_size=LEN[cls], max_size=LEN[cls]))
    k = draw(st.integers(0, 9))
    if k == 0:
        b = b[:draw(st.integers(0, len(b)))]
    elif k == 1:
        b += draw(st.binary(max_size=3))
    return {"cls": cls, "hex": b.hex()}


def bytewise():
    """one byte of a content takes every value"""
    def one(cls, b, i):
        for v in range(256):
            c = bytearray(b)
            c[i] = v
            yield {"cls": cls, "hex": bytes(c).hex()}
    yield from one("EngineeringModeFile", bytes([1, 2, 3, 0x32, 4, 5, 0xF6, 0, 0]), 0)
    yield from one("EngineeringModeFile", bytes([1, 2, 3, 0x32, 4, 5, 0xF6, 7, 9]), 3)
    yield from one("EngineeringModeFile", bytes([1, 2, 3, 0x32, 4, 5, 0xF6, 7, 9]), 6)
    yield from one("DllStatusFile", bytes([1, 2, 3, 0x32] + list(range(4, 16))), 3)
    f = bytes.fromhex("0000000028e4000133360001ebac00002580000012c00000d9030000c350") + bytes(26)
    f = f[:46] + b"\0\1\xe8\x48" + bytes([9, 2, 0, 40]) + b""
    f = enc({"t": "FactorySettingsFile", **{n: (8 if n in ("rssi_smoothing", "lora_SF") else 1) for n, k in ref.FACTORY}})
    for i in (0, 46, 47, 52, 53):
        yield from one("FactorySettingsFile", f, i)
    yield from one("FirmwareVersionFile", bytes([1, 2, 3, 4]) + b"abcdefghijklm", 9)
    yield from one("FirmwareVersionFile", bytes([1, 2, 3, 4]) + b"abcdefghijklm", 16)
    yield from one("PhyStatusFile", bytes(12) + b"\3\xe8\1" + bytes([0x71, 9, 7]), 15)
    yield from one("PhyStatusFile", bytes(12) + b"\3\xe8\1" + bytes([0x74, 9, 7]), 16)
    yield from one("PhyStatusFile", bytes(12) + b"\3\xe8\1" + bytes([0x74, 9, 7]), 13)
    for cls in CLS:
        for n in range(LEN[cls] + 1 if cls != "PhyStatusFile" else 25):
            yield {"cls": cls, "hex": bytes(i * 3 & 0x2F for i in range(n)).hex()}


FACETS = [
    Facet("limits", check, cases=contents, rule="every field at its limits, every key bit, all lengths of access profiles"),
    Facet("files", check, lambda: st.fixed_dictionaries({"m": st.one_of([gen.FILES[c] for c in CLS]), "junk": JUNK.map(lambda b: b.hex()),
                                                         "cut": st.lists(st.integers(0, 80), max_size=1)}), quick=1300, rule="random files of every type"),
    Facet("bytewise", arbitrary, cases=bytewise, rule="contents of at least the declared length"),
    Facet("bytes", arbitrary, content, quick=2500, rule="contents of at least the declared length"),
]
