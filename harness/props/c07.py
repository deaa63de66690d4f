from common import *


def settings(w, case, rec):
    """a forward or indirect forward built, serialised, and parsed back between other actions"""
    m, want = case["m"], enc(case["m"])
    r = build(w, m, ["hex", "hex2", "dump", "str", "hex3"])
    for k in ("hex", "hex2", "hex3"):
        same(r[k], want.hex(), "bytes of %s" % short(m, 300))
    same(r["dump"], m, "fields of the built action")
    if "group" in m:
        m = {"t": "ForwardAction", "resp": m["resp"], "operation": m["operation"]}
    if case["group"] and "overload" not in m:
        # the group bit is reserved in a forward
        bad = bytes([want[0] | 0x80]) + want[1:]
        refused(parse(w, "alp", bad, length=len(bad)), "forward with the reserved bit set: %s" % bad.hex())
    tail = enc(TAIL) if case["tail"] else b""
    r = ok(parse(w, "alp", want + tail, length=len(want + tail), want=("dump", "acthex", "str")), "parsing %s" % want.hex())
    same(ok(r["dump"], "reading")["actions"], [m] + [TAIL] * len(tail[:1]), "parsed actions of %s" % (want + tail).hex())
    same(ok(r["acthex"], "serialising")[0], want.hex(), "bytes of the parsed action")
    same(r["bits"], 8 * len(want + tail), "bits read")
    # and on its own, whatever follows
    r = ok(parse(w, "alp", want + b"\x55\xaa", length=len(want)), "parsing %s" % want.hex())
    same(r["dump"]["actions"], [m], "parsed action of %s" % want.hex())
    same(r["bits"], 8 * len(want), "bits read")
    rec.nontrivial()
    o = m["operation"]["operand"]
    rec.label(o["interface_id"]["n"] if "interface_id" in o else "indirect-overload" if m["overload"] else "indirect")


TAIL = {"t": "RegularAction", "group": True, "resp": False, "operation": {"t": "ReturnFileData", "operand": {
    "t": "Data", "data": [7, 8], "offset": {"t": "Offset", "id": 0x42, "offset": {"t": "Length", "value": 64}}}}}
rf = gen.M("RegularAction", group=st.just(False), resp=gen.BOOL, operation=gen.op("Forward", gen.iface))
actions = lambda: st.fixed_dictionaries({"m": st.one_of(gen.forward_action, gen.forward_action, gen.indirect_action, rf),
                                         "tail": gen.BOOL, "group": gen.BOOL})


def helper(w, case, rec):
    """the helper that adds an indirect forward: the overload addressee is sent when and only when overloading is flagged"""
    fid, ov, ad, resp = case["file"], case["overload"], case["addressee"], case["resp"]
    steps = [["new", {"tag_id": 5}]]
    exp = b"\xb4\x05"
    for _ in range(2):
        kw = {"interface_file_id": fid, "overload": ov}
        if ad is not None:
            kw["overload_configuration"] = ad
        steps.append(["add_indirect", 0, kw])
        exp += bytes([(0x80 if ov else 0) | 51, fid]) + (enc(ad) if ov else b"")
    r = w.call("cmds", steps=steps)["steps"]
    got = ok(r[-1], "adding an indirect forward")["all"][0]
    same(got, exp.hex(), "command with two indirect forwards (%s)" % short(case, 300))
    if not ov or ad is not None:
        p = ok(parse(w, "alp", exp, length=len(exp)), "parsing %s" % exp.hex())["dump"]["actions"]
        same(p, [{"t": "IndirectForwardAction", "overload": ov, "resp": False, "operation": {"t": "IndirectForward", "operand": {
            "t": "IndirectInterfaceOperand", "interface_file_id": fid, "interface_configuration_overload": ad if ov else None}}}] * 2,
             "parsed indirect forwards")
    rec.nontrivial(ov or ad is not None)
    rec.label("overload" if ov else "addressee-ignored" if ad is not None else "plain")


@st.composite
def helpers(draw):
    ov = draw(gen.BOOL)
    return {"file": draw(gen.BYTE), "overload": ov, "addressee": draw(gen.addressee if ov else gen.opt(gen.addressee)), "resp": False}


def undefined(w, case, rec):
    b = bytes.fromhex(case)
    m = decodes(w, "alp", b, lambda d: d.command(len(b)), length=len(b))
    rec.nontrivial()
    rec.label("accepted" if m is not None else "rejected")


def ids():
    tails = ["", "00" * 3, "00" * 11, "0000100000", "0600100001", "060000230500001111222233", "0000255b0102030405060708"]
    for h in (0x32, 0x72, 0xB2, 0xF2):
        for i in range(256):
            for t in tails:
                yield "%02x%02x%s" % (h, i, t)


def indirect_bytes():
    for h in (0x33, 0x73, 0xB3, 0xF3):
        for i in range(256):
            yield "%02x%02x" % (h, i)
            yield "%02x40%02x25a1a2a3a4a5a6a7a8" % (h, i)
            yield "%02x40%02x25a1" % (h, i)


raws = lambda: st.builds(lambda h, b: bytes([h]).hex() + b, st.sampled_from([0x32, 0x72, 0x33, 0x73, 0xB3, 0xF3]),
                         st.one_of(st.binary(max_size=14), gen.iface.map(enc), gen.iface.map(lambda m: enc(m)[:-1]),
                                   gen.addressee.map(lambda m: b"\x40" + enc(m)),
                                   gen.addressee.map(lambda m: b"\x40" + enc(m)[:-1])).map(lambda b: b.hex()))

FACETS = [
    Facet("ids", undefined, cases=ids, rule="every interface id and flag with several tails"),
    Facet("indirect-bytes", undefined, cases=indirect_bytes, rule="every flag, file id and addressee control byte"),
    Facet("settings", settings, actions, quick=1300, rule="random forward and indirect forward actions"),
    Facet("helper", helper, helpers, quick=500, rule="indirect forward through the command helper; non-trivial: an addressee is given"),
    Facet("bytes", undefined, raws, quick=700, rule="random and truncated bytes"),
]
