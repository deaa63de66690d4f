from common import *


def check(w, case, rec):
    acts = case["actions"]
    at = [i for i, a in enumerate(acts) if a["t"] == "StatusAction"]
    data = b"".join(enc(a) for a in acts)
    a = acts[at[0]]
    o = a["operation"]["operand"]
    r = ok(parse(w, "alp", data + b"\x62", length=len(data), want=("dump", "d7status", "d7hex", "statushex", "hex", "str", "acthex")),
           "parsing %s" % data.hex())
    d = ok(r["dump"], "reading")
    same(d, ref.decode_command(data), "command %s" % data.hex())
    same(d["interface_status"], a, "interface status of %s" % data.hex())
    need(all(x is not None and x["t"] != "StatusAction" for x in d["actions"]), "the status is among the actions of %s", data.hex())
    same(r["bits"], 8 * len(data), "bits read")
    same(ok(r["d7status"], "the session status"), o["interface_status"] if o["interface_id"] == 0xD7 else None, "session status of %s" % data.hex())
    same(ok(r["d7hex"], "serialising the session status"), enc(o["interface_status"]).hex() if o["interface_status"] else None,
         "serialised session status of %s" % data.hex())
    ok(r["str"], "printing")
    want, got = enc(a).hex(), ok(r["statushex"], "serialising the status action")
    if got != want:
        lenless = want[:4] + want[6:]
        same(got, lenless, "serialised status action (even without its length byte)")
        rec.known("KF1", "serialised interface status %s lacks the length byte: %s" % (want, got))
    rest = "".join(enc(x).hex() for x in acts if x["t"] not in ("StatusAction", "TagRequestAction", "TagResponseAction"))
    same(ok(r["hex"], "serialising"), got + rest, "bytes of the parsed command")
    rec.nontrivial(o["interface_status"] is not None)
    rec.label("iface=%02x" % o["interface_id"], "full" if o["interface_status"] else "empty", "position=%d" % at[0])


@st.composite
def with_status(draw):
    acts = draw(gen.wire_actions(30, 2, status=False))
    s = draw(gen.interface_status if draw(gen.BOOL) else gen.status.map(lambda s: gen.status_action(0xD7, s)))
    acts.insert(draw(st.integers(0, len(acts))), s)
    return {"actions": acts}


BASE = {"t": "Status", "channel_id": {"t": "ChannelID", "channel_header": {
    "t": "ChannelHeader", "channel_coding": E("ChannelCoding", "PN9"), "channel_class": E("ChannelClass", "NORMAL_RATE"),
    "channel_band": E("ChannelBand", "BAND_868")}, "channel_index": 16}, "rx_level": 70, "link_budget": 80,
    "target_rx_level": 81, "nls": False, "missed": False, "retry": False, "unicast": True, "fifo_token": 200, "seq_nr": 1,
    "response_to": {"t": "CT", "exp": 0, "mant": 20}, "addressee": {"t": "Addressee", "id_type": E("IdType", "UID"),
    "id": 0x0123456789ABCDEF, "access_class": 33, "nls_method": E("NlsMethod", "NONE")}}


def ranges():
    one = lambda s: {"actions": [gen.status_action(0xD7, s)]}
    for f in ("rx_level", "link_budget", "target_rx_level", "fifo_token", "seq_nr"):
        for v in range(256):
            yield one(dict(BASE, **{f: v}))
    for v in range(16):
        yield one(dict(BASE, nls=bool(v & 8), missed=bool(v & 4), retry=bool(v & 2), unicast=bool(v & 1)))
    for v in range(256):
        yield one(dict(BASE, response_to={"t": "CT", "exp": v >> 5, "mant": v & 31}))
        yield one(dict(BASE, channel_id=dict(BASE["channel_id"], channel_index=v * 257 ^ 0x0F)))
    for b in sorted(ref.ENUM["ChannelBand"]):
        for k in sorted(ref.ENUM["ChannelClass"]):
            for c in sorted(ref.ENUM["ChannelCoding"]):
                yield one(dict(BASE, channel_id={"t": "ChannelID", "channel_index": 1, "channel_header": {
                    "t": "ChannelHeader", "channel_coding": E("ChannelCoding", c), "channel_class": E("ChannelClass", k),
                    "channel_band": E("ChannelBand", b)}}))
    for i in (0, 1, 0xD7):
        yield {"actions": [gen.status_action(i, None)]}


def other(w, case, rec):
    """statuses of any interface id, valid or damaged content"""
    b = bytes.fromhex(case)
    m = decodes(w, "alp", b, lambda d: d.command(len(b)), length=len(b))
    rec.nontrivial()
    rec.label("accepted" if m is not None else "rejected")


def others():
    body = enc(BASE)
    for i in range(256):
        yield "62%02x00" % i
        yield "62%02x%02x%s" % (i, len(body), body.hex())
        yield "62d7%02x%s" % (len(body), (bytes([i]) + body[1:]).hex())
        yield "62d7%02x%s" % (len(body), (body[:6] + bytes([i]) + body[7:]).hex())
        yield "%02xd700" % (i & 0xC0 | 0x22)
    for k in range(len(body)):
        yield "62d7%02x%s" % (len(body), body[:k].hex())


bodies = lambda: st.builds(lambda s, k, v: (lambda b: "62d7%02x%s" % (len(b), (b[:k % len(b)] + bytes([v]) + b[k % len(b) + 1:]).hex()))(enc(s)),
                           gen.status, st.integers(0, 30), gen.BYTE)

FACETS = [
    Facet("ranges", check, cases=ranges, rule="every value of each byte field, flags, channel headers; non-trivial: a session status"),
    Facet("interfaces", other, cases=others, rule="every interface id; every truncation"),
    Facet("status", check, with_status, quick=1500, rule="random statuses among random actions; non-trivial: a session status"),
    Facet("damaged", other, bodies, quick=700, rule="session status with one byte replaced"),
]
