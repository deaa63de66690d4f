from common import *
from props import c18
import props.c29 as c29
import props.c37 as c37

DEC = {"CT": lambda d: d.ct(), "Length": lambda d: d.length(), "Offset": lambda d: d.offset(), "Configuration": lambda d: d.configuration(),
       "Addressee": lambda d: d.addressee(), "Status": lambda d: d.status(), "QoS": lambda d: d.qos(), "FileHeader": lambda d: d.header(),
       "SubProfile": lambda d: d.subprofile(), "SubBand": lambda d: d.subband(), "AccessProfile": lambda d: d.access_profile(),
       "ChannelHeader": lambda d: d.channel_header(), "ChannelID": lambda d: d.channel_id(), "ChannelStatusIdentifier": lambda d: d.csi(),
       "BgFrame": lambda d: d.bg_frame(), "FgFrame": lambda d: d.fg_frame(), "NpControl": lambda d: d.np_control(), "TpControl": lambda d: d.tp_control(),
       "ABP": lambda d: d.lorawan(True), "OTAA": lambda d: d.lorawan(False), "QueryOperand": lambda d: d.query()}
FILES = sorted(c for c in gen.FILES if c not in ("AccessProfileFile",))
for _c in FILES:
    DEC[_c] = lambda d, c=_c: d.file(c)
SOURCE = dict({c: gen.FILES[c] for c in FILES}, CT=gen.ct, Length=gen.length, Offset=gen.offset, Configuration=gen.configuration, Addressee=gen.addressee,
              Status=gen.status, QoS=gen.qos, FileHeader=gen.header, SubProfile=gen.subprofile, SubBand=gen.subband, AccessProfile=gen.access_profile(),
              ChannelHeader=gen.channel_header, ChannelID=gen.channel_id, ChannelStatusIdentifier=gen.csi, BgFrame=gen.bg_frame, FgFrame=gen.fg_frame(limit=60),
              ABP=gen.abp, OTAA=gen.otaa, QueryOperand=gen.query)
KINDS = sorted(SOURCE)


def wire(m):
    """what the parse function reads: not the reserved bytes behind the engineering mode"""
    b = c29.enc_any(m)
    return b[:7] if m["t"] == "EngineeringModeFile" else b


def expected(items, data):
    """what the reference decoder makes of the objects in a row; what is refused is skipped, when all of it is there"""
    d = ref.Dec(data)
    out = []
    for what, n in items:
        p = d.p
        try:
            m = d.command(n) if what == "alp" else d.np_frame(n) if what == "NpFrame" else d.tp_frame(n) if what == "TpFrame" else DEC[what](d)
        except ref.Unspec:
            raise Discard()
        except ref.Reject as e:
            if str(e) == "overrun":         # accepted or not where more bytes follow: not specified (C03)
                raise Discard()
            out.append((None, p, str(e)))
            if p + n > len(data):
                break
            d.p = p + n
            continue
        out.append((m, p, d.p - p))
    return out, d.p


def check(w, case, rec):
    data = bytes.fromhex(case["hex"])
    exp, end = expected(case["items"], data)
    r = ok(w.call("row", hex=case["hex"], items=case["items"], one=case["one"]), "parsing in a row")
    for i, (m, at, n) in enumerate(exp):
        kind = case["items"][i][0]
        what = "object %d (%s) at byte %d of %s" % (i, kind, at, short(case["hex"], 300))
        got = r["items"][i]
        if m is None:
            refused(got, what + ", which is not valid (%s)," % n)
            continue
        ok(got, what)
        same(got["at"], 8 * at, "position before " + what)
        same(got["bits"], 8 * n, "bits consumed for " + what)
        same(ok(r["objs"][i]["dump"], "reading " + what), m, "fields of " + what)
        if kind != "alp" and m["t"] not in ("DllConfigFile", "RootAuthenticationKeyFile", "UserAuthenticationKeyFile", "TpControl", "ABP", "OTAA", "FactorySettingsFile",
                                               "EngineeringModeFile"):
            same(ok(r["objs"][i]["hex"], "writing " + what), enc(m).hex(), "bytes of " + what)
    if exp[-1][0] is not None:
        same(ok(r["rest"], "reading on")["hex"], data[end:].hex(), "what is left of the stream after %s" % short(case, 300))
    good = sum(m is not None for m, _, _ in exp)
    rec.nontrivial(good >= 2)
    rec.label("parsed=%d" % min(good, 6), "refused" if good < len(exp) else "all", *{k for k, _ in case["items"]})


@st.composite
def rows(draw):
    items, parts = [], []
    few = draw(st.lists(st.sampled_from(KINDS + ["alp"] * 8), min_size=1, max_size=4))
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(few))
        if k == "alp":
            b = draw(gen.alp_payload(80)) if draw(st.integers(0, 5)) else draw(gen.undecodable())
            items.append([k, len(b)])
        else:
            m = draw(SOURCE[k])
            b = wire(m)
            items.append([k, len(b)])
            if k == "FgFrame" and draw(gen.BOOL):     # its two inner layers by themselves
                sub = m["d7anp_frame"]
                which = draw(st.sampled_from(["NpFrame", "TpFrame"]))
                b = enc(sub if which == "NpFrame" else sub["d7atp_frame"])
                items[-1] = [which, len(b)]
        parts.append(b)
    b = b"".join(parts) + draw(JUNK)
    j = draw(st.integers(0, 4))
    if j == 0 and b:
        i = draw(st.integers(0, len(b) - 1))
        b = b[:i] + bytes([draw(gen.BYTE)]) + b[i + 1:]
    elif j == 1:
        b = b[:draw(st.integers(len(b) // 2, len(b)))]
    return {"items": items, "hex": b.hex(), "one": draw(gen.BOOL)}


def pairs():
    """every kind of object after every other"""
    ex = {}
    for k in KINDS:
        ex[k] = example(k)
    ex["alp"] = bytes.fromhex("2305204001020aff")
    for a in sorted(ex):
        items, b = [], b""
        for c in sorted(ex):
            for k in (a, c):
                items.append([k, len(ex[k])])
                b += ex[k]
        yield {"items": items, "hex": b.hex() + "c0ff", "one": True}


def example(k):
    if k == "FgFrame":
        return enc(c18.frame(tt="UID", ot="NOID", acts=[c18.wr(20)]))
    m = c37.full(k)
    if k == "AccessProfile":
        m = dict(m, sub_bands=(m["sub_bands"] * 8)[:8])
    return wire(m)


def many():
    """many objects of one kind in a row, hundreds of commands by one parser"""
    for k in KINDS:
        b = example(k)
        n = max(40, min(300, 3000 // len(b)))
        yield {"items": [[k, len(b)]] * n, "hex": (b * n).hex(), "one": False}
    for one in (False, True):
        cs = [gen.sized(i % 40) for i in range(400)]
        yield {"items": [["alp", len(c)] for c in cs], "hex": b"".join(cs).hex(), "one": one}


FACETS = [
    Facet("pairs", check, cases=pairs, rule="every kind of object before and after every other"),
    Facet("many", check, cases=many, rule="tens to hundreds of objects of one kind in one stream"),
    Facet("rows", check, rows, quick=1500, rule="2..8 random objects in one stream, some damaged or cut off; non-trivial: two or more parsed"),
]
