from common import *


def expected(fid, data):
    cls, n = ref.SYS.get(fid, (None, 0))
    if cls is None or len(data) > n:
        return None
    try:
        return ref.Dec(bytes(data)).file(cls)
    except ref.Reject:
        return None
    except ref.Unspec:
        raise Discard()


def view(x, fid, data, what):
    e = expected(fid, data)
    same(x["parsed"], e, "%s: parsed content of file %d, data %s" % (what, fid, bytes(data).hex()))
    same(x["type"], None if e is None else e["t"], "%s: type shown for file %d, data %s" % (what, fid, bytes(data).hex()))
    if e is not None:
        same(x["type_id"], fid, "%s: id of the file type" % what)
    return e


def check(w, case, rec):
    """case: list of (file id, offset, data) returned in one command"""
    acts = [{"t": "RegularAction", "group": bool(i & 1), "resp": bool(i & 2), "operation": {"t": "ReturnFileData", "operand": {
        "t": "Data", "data": list(bytes.fromhex(d)), "offset": {"t": "Offset", "id": f, "offset": {"t": "Length", "value": o}}}}}
        for i, (f, o, d) in enumerate(case)]
    b = b"".join(enc(a) for a in acts)
    p = ok(parse(w, "alp", b, length=len(b), want=("dump", "hex", "acthex", "str", "retdata", "hex2")), "receiving %s" % b.hex())
    same(ok(p["dump"], "reading")["actions"], acts, "actions of %s" % b.hex())
    same(ok(p["acthex"], "serialising"), [enc(a).hex() for a in acts], "bytes of the actions of %s" % b.hex())
    # the command numbers itself: not so a received one without a tag
    for k in ("hex", "hex2"):
        need(ok(p[k], "serialising").endswith(b.hex()), "bytes of the received command %s: %s", b.hex(), p[k])
    n = 0
    got = ok(p["retdata"], "reading file contents")
    same(len(got), len(acts), "number of returned files")
    for x, (f, o, d) in zip(got, case):
        d = bytes.fromhex(d)
        e = view(x, f, d, "received")
        if e is not None:
            n += 1
            q = ok(parse(w, e["t"], d, want=("dump", "hex")), "parsing %s directly" % e["t"])
            same(x["parsed"], q["dump"], "file %d through the command and directly" % f)
            same(ok(x["parsed_hex"], "serialising the file"), ok(q["hex"], "serialising"), "bytes of file %d through the command and directly" % f)
    # the same operation when built
    r = build(w, {"t": "Command", "actions": acts, "tag_id": 1}, ["hex", "dump", "retdata", "hex2"])
    same([r["hex"], r["hex2"]], ["b401" + b.hex()] * 2, "bytes of the command built with these actions")
    for x, (f, o, d) in zip(ok(r["retdata"], "reading"), case):
        view(x, f, bytes.fromhex(d), "built")
    rec.nontrivial(any(f in ref.SYS and ref.SYS[f][0] for f, _, _ in case))
    rec.label("decoded=%d/%d" % (n, len(case)))


def base(cls):
    fixed = {"FirmwareVersionFile": bytes([1, 2, 3, 4]) + b"app   abc1234", "PhyStatusFile": bytes(12) + b"\0\5\2" + bytes([0x40, 5, 90, 0x70, 9, 80]),
             "AccessProfileFile": bytes([0x32]) + bytes(range(8)) + bytes(range(100, 156)),
             "EngineeringModeFile": bytes([4, 1, 2, 0x29, 3, 4, 0xF6, 0, 0]), "DllStatusFile": bytes([1, 2, 3, 0x32] + list(range(60, 72)))}
    if cls == "FactorySettingsFile":
        return enc({"t": cls, **{n: (8 if n in ("rssi_smoothing", "lora_SF") else 1) for n, k in ref.FACTORY}})
    n = ref.SYS[gen.FILE_ID[cls]][1]
    return fixed.get(cls, bytes(range(17, 17 + n)))


def every():
    """every file id, with content of every length up to one more than any file"""
    for fid in range(256):
        cls, n = ref.SYS.get(fid, (None, 0))
        if cls is None:
            for k in sorted({0, 1, 2, 3, 8, 9, 16, 17, n, n + 1}):
                yield [[fid, 0, bytes(range(k)).hex()]]
            continue
        b = base(cls)
        for k in (range(n + 3) if fid < 34 or fid == 46 else (0, 1, 64, 65, 66)):
            c = (b + bytes(99))[:k]
            yield [[fid, 0 if k % 3 else k, c.hex()]]
        if cls == "PhyStatusFile":
            for m in (3, 10, 11, 12, 60):
                yield [[fid, 0, (bytes(13) + bytes([5, m]) + bytes([0x40, 5, 90]) * m).hex()]]


@st.composite
def returned(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 9))
        if k < 6:
            d = draw(gen.sysfile_data())
            out.append([d["offset"]["id"], d["offset"]["offset"]["value"], bytes(d["data"]).hex()])
        elif k < 8:
            cls = draw(st.sampled_from(sorted(gen.FILES)))
            f = draw(st.integers(0, 0x30))
            out.append([f, draw(st.integers(0, 70)), enc(draw(gen.FILES[cls])).hex()])
        else:
            f = draw(st.integers(0, 255))
            n = ref.SYS.get(f, (None, 5))[1]
            m = draw(st.sampled_from([n, n, max(n - 1, 0), n + 1]))
            out.append([f, draw(st.sampled_from([0, 0, 1, 64, 16384])), draw(st.binary(min_size=m, max_size=m)).hex()])
    return out


FACETS = [
    Facet("every", check, cases=every, rule="a file with a decoder"),
    Facet("returned", check, returned, quick=1500, rule="a file with a decoder among the returned ones"),
]
