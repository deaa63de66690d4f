from common import *

PLAIN = {"t": "Command", "actions": [], "tag_id": None, "send_tag_response_when_completed": True, "interface_status": None,
         "execution_completed": False, "completed_with_error": None}


def frame(ot="UID", tt="VID", flags=0, subnet=5, eirp=10, ac=1, dialog=1, trans=2, agc=7, tl=9, te=10, tc=11, acts=(), crc=0xABCD, no_origin=None,
          nls="NONE", hop=False):
    n = {"VID": 2, "UID": 8}
    ct = lambda v: {"t": "CT", "exp": v >> 5, "mant": v & 31}
    b = lambda i: bool(flags >> i & 1)
    c = {"t": "TpControl", "is_dialog_start": b(7), "has_tl": b(5), "has_te": b(4), "is_ack_requested": b(3), "is_ack_not_void": b(2),
         "is_ack_record_requested": b(1), "has_agc": b(0)}
    no_origin = ot not in n if no_origin is None else no_origin
    f = {"t": "FgFrame", "length": 0, "subnet": subnet, "control": {"t": "FgControl", "id_type": E("IdType", tt), "eirp_index": eirp},
         "target_address": list(range(200, 200 + n.get(tt, 0))), "crc16": crc, "d7anp_frame": {
             "t": "NpFrame", "control": {"t": "NpControl", "has_no_origin_access_id": no_origin, "has_hopping": hop, "nls_method": E("NlsMethod", nls),
                                         "origin_id_type": E("IdType", ot)},
             "origin_access_class": ac, "origin_access_id": [] if no_origin else list(range(100, 100 + n.get(ot, 0))), "d7atp_frame": {
                 "t": "TpFrame", "control": c, "dialog_id": dialog, "transaction_id": trans, "agc_rx_level_i": agc if b(0) else 10,
                 "tl": ct(tl) if b(5) else None, "te": ct(te) if b(4) else None, "tc": ct(tc) if b(7) and b(3) else None, "ack_template": None,
                 "alp_command": dict(PLAIN, actions=list(acts))}}}
    f["length"] = len(enc(f)) - 1
    return f


def check(w, case, rec):
    f, junk = case["f"], bytes.fromhex(case["junk"])
    b = enc(f)
    want = ref.Dec(b).fg_frame()
    if case.get("plain", True) and want != shown_frame(f):
        raise RuntimeError("reference model disagrees with itself on %s" % b.hex())
    r = ok(parse(w, "FgFrame", b + junk, want=("dump",)), "parsing frame %s" % b.hex())
    same(ok(r["dump"], "reading"), want, "frame %s" % b.hex())
    same(r["bits"], 8 * len(b), "bits read for frame %s" % b.hex())
    s = ok(w.call("dll", type="fg", feeds=[b.hex()])["steps"][0], "radio frame parser")
    same(s["frames"], [want], "frames returned for %s" % b.hex())
    same([s["parsed"], s["buffer"], s["nerr"]], [8 * len(b), 0, 0], "bits delivered, bits kept, errors for %s" % b.hex())
    rec.nontrivial()
    t = f["d7anp_frame"]["d7atp_frame"]
    rec.label("target=" + f["control"]["id_type"]["n"], "origin=" + ("none" if f["d7anp_frame"]["control"]["has_no_origin_access_id"] else
              f["d7anp_frame"]["control"]["origin_id_type"]["n"]), "actions=%d" % len(t["alp_command"]["actions"]),
              "length>=128" if len(b) > 128 else "length<128")


def shown_frame(f):
    d = shown(f)
    d["d7anp_frame"]["d7atp_frame"]["alp_command"] = dict(PLAIN, actions=d["d7anp_frame"]["d7atp_frame"]["alp_command"]["actions"])
    return d


RD = {"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "ReadFileData", "operand": {
    "t": "DataRequest", "length": 8, "offset": {"t": "Offset", "id": 0, "offset": {"t": "Length", "value": 0}}}}}


def wr(n):
    return {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": "WriteFileData", "operand": {
        "t": "Data", "data": gen.pattern(n, n, 5), "offset": {"t": "Offset", "id": 64, "offset": {"t": "Length", "value": 0}}}}}


def fields():
    one = lambda **k: {"f": frame(acts=[RD], **k), "junk": ""}
    for v in range(256):
        yield one(subnet=v, ac=255 - v, dialog=v ^ 0x55, trans=v ^ 0xAA, crc=v * 257 ^ 0xFF)
        yield one(flags=0xB8, tl=v, te=v ^ 0x0F, tc=v ^ 0xF0)
    for fl in range(256):
        if not fl & 0x46:
            for ot in ("UID", "NOID"):
                yield one(flags=fl, ot=ot)
    for v in range(64):
        for tt in ("NBID", "NOID", "UID", "VID"):
            yield one(eirp=v, tt=tt)
    for v in range(32):
        yield one(flags=1, agc=v)
    for tt in ("NBID", "NOID", "UID", "VID"):
        for ot in ("NBID", "NOID", "UID", "VID"):
            for no in (True, False):
                if no or ot in ("UID", "VID"):
                    yield one(tt=tt, ot=ot, no_origin=no)
    for n in range(0, 226):
        f = frame(tt="VID", ot="VID", acts=[wr(n)])
        if f["length"] < 256:
            yield {"f": f, "junk": "c0" if n % 3 else ""}
    yield {"f": frame(acts=[]), "junk": ""}


def rejected(w, case, rec):
    b = bytes.fromhex(case)
    m = decodes(w, "FgFrame", b, lambda d: d.fg_frame())
    rec.nontrivial()
    rec.label("accepted" if m is not None else "rejected")


def unsupported():
    for fl in range(256):
        if fl & 6:
            yield enc(frame(flags=fl, acts=[RD])).hex()
            yield (enc(frame(flags=fl, acts=[RD])) + b"\x02\x02" * 4).hex()
            # with an acknowledgement template that covers only this transaction
            f = frame(flags=fl, acts=[RD], trans=2)
            b = enc(f)
            cut = len(b) - 2 - len(enc(RD))
            yield (bytes([b[0] + 2]) + b[1:cut] + b"\x02\x02" + b[cut:]).hex()
    for n in sorted(ref.ENUM["NlsMethod"]):
        for hop in (False, True):
            yield enc(frame(nls=n, hop=hop, acts=[RD])).hex()
    b = enc(frame(acts=[RD], tt="NOID"))
    for v in range(256):
        yield (b[:3] + bytes([v]) + b[4:]).hex()
        yield (b[:3] + bytes([v]) + b[4:] + b"\0" * 16).hex()
        yield (enc(frame(flags=1, agc=0, acts=[RD]))[:17 - 1] + bytes([v]) + enc(frame(flags=1, acts=[RD]))[17:]).hex()
    for k in range(len(b)):
        yield b[:k].hex()


@st.composite
def mutated(draw):
    b = bytearray(enc(draw(gen.fg_frame(limit=90, extra=True))))
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(1, min(len(b) - 1, 25)))
        b[i] = draw(gen.BYTE)
    if draw(st.integers(0, 3)) == 0:
        b = b[:draw(st.integers(0, len(b)))]
    return bytes(b).hex()


FACETS = [
    Facet("fields", check, cases=fields, rule="every value of each field and flag, every address type, every data size"),
    Facet("unsupported", rejected, cases=unsupported, rule="unimplemented features, undefined methods, every control byte, truncations"),
    Facet("frames", check, lambda: st.one_of(
        st.fixed_dictionaries({"f": gen.fg_frame(), "junk": JUNK.map(lambda b: b.hex())}),
        st.fixed_dictionaries({"f": gen.fg_frame(), "junk": JUNK.map(lambda b: b.hex())}),
        st.fixed_dictionaries({"f": gen.fg_frame(extra=True), "junk": JUNK.map(lambda b: b.hex()), "plain": st.just(False)})),
        quick=1300, rule="random frames"),
    Facet("mutated", rejected, mutated, quick=800, rule="frames with one or two bytes replaced, or cut"),
]
