from common import *
from props import c18


def check(w, case, rec):
    f = case["f"]
    b = enc(f)
    junk = bytes.fromhex(case["junk"])
    want = ref.Dec(b).fg_frame()
    twice(w, "FgFrame", b, junk, want)
    np, tp = f["d7anp_frame"], f["d7anp_frame"]["d7atp_frame"]
    wn, wt = want["d7anp_frame"], want["d7anp_frame"]["d7atp_frame"]
    part(w, "NpFrame", enc(np), wn, junk, len(enc(np)))
    part(w, "TpFrame", enc(tp), wt, junk, len(enc(tp)))
    part(w, "FgControl", enc(f["control"]), f["control"], junk)
    part(w, "NpControl", enc(np["control"]), np["control"], junk)
    part(w, "TpControl", enc(tp["control"]), tp["control"], junk)
    # the same frame, made from its fields
    m = json_copy(f)
    m["d7anp_frame"]["d7atp_frame"]["alp_command"]["generate_tag_request_action"] = False
    r = build(w, m, ["hex", "dump", "hex2", "str", "hex3"])
    for k in ("hex", "hex2", "hex3"):
        same(r[k], b.hex(), "bytes of the frame made from its fields")
    same(r["dump"], want, "fields of the frame made from its fields")
    rec.nontrivial()
    c = tp["control"]
    rec.label("optional=%d" % sum(bool(c[k]) for k in ("has_tl", "has_te", "has_agc")), "congestion" if tp["tc"] else "no-congestion",
              "actions=%d" % len(tp["alp_command"]["actions"]))


def json_copy(x):
    if isinstance(x, list):
        return [json_copy(y) for y in x]
    return {k: json_copy(v) for k, v in x.items()} if isinstance(x, dict) else x


def twice(w, what, b, junk, want):
    r = ok(parse(w, what, b + junk, want=("dump", "hex", "str", "hex3", "dump")), "parsing %s" % b.hex())
    same(ok(r["hex"], "serialising"), b.hex(), "serialised %s" % what)
    same(ok(r["hex3"], "serialising"), b.hex(), "serialised %s, after printing" % what)
    same(r["dump"], want, "%s decoded from %s" % (what, b.hex()))
    again = ok(parse(w, what, bytes.fromhex(r["hex"]), want=("dump",)), "parsing the serialised %s" % what)
    same(again["dump"], r["dump"], "%s decoded from its own bytes" % what)


def part(w, what, b, want, junk, length=None):
    r = ok(parse(w, what, b + junk, length=length, want=("dump", "hex")), "parsing %s %s" % (what, b.hex()))
    same(ok(r["hex"], "serialising"), b.hex(), "serialised %s" % what)
    same(r["dump"], want, "%s decoded from %s" % (what, b.hex()))
    same(r["bits"], 8 * len(b), "bits of %s" % what)


def background(w, case, rec):
    for m in case:
        twice(w, "BgFrame", enc(m), b"", m)
        part(w, "BgControl", enc(m["control"]), m["control"], b"\xff")
    rec.nontrivial()


def bgs():
    for i in range(0, 256, 8):
        yield [{"t": "BgFrame", "subnet": v ^ 0xA5, "control": {"t": "BgControl", "id_type": E("IdType", ref.BYVAL["IdType"][v >> 6]), "tag": v & 63},
                "payload": v * 257, "crc16": (v * 771 + 255) & 0xFFFF} for v in range(i, i + 8)]


def controls(w, case, rec):
    """every control byte that has a meaning"""
    what, v = case
    b = bytes([v])
    try:
        m = {"FgControl": lambda d: {"t": "FgControl", "id_type": d.enum("IdType", v >> 6), "eirp_index": v & 63},
             "BgControl": lambda d: {"t": "BgControl", "id_type": d.enum("IdType", v >> 6), "tag": v & 63},
             "NpControl": lambda d: d.np_control(), "TpControl": lambda d: d.tp_control()}[what](ref.Dec(b))
    except ref.Reject:
        raise Discard()
    if what == "TpControl" and v & 0x40:
        raise Discard()             # reserved
    part(w, what, b, m, b"\x00")
    r = build(w, m, ["hex", "dump"])
    same([r["hex"], r["dump"]], [b.hex(), m], "%s made from its fields" % what)
    rec.nontrivial()


FACETS = [
    Facet("controls", controls, cases=lambda: ([t, v] for t in ("FgControl", "BgControl", "NpControl", "TpControl") for v in range(256)),
          rule="every control byte"),
    Facet("fields", check, cases=lambda: (c for i, c in enumerate(c18.fields()) if i % 3 == 0), rule="every third of the field cases of C18"),
    Facet("background", background, cases=bgs, rule="every control byte and subnet of background frames"),
    Facet("frames", check, lambda: st.fixed_dictionaries({"f": gen.fg_frame(), "junk": JUNK.map(lambda b: b.hex())}), quick=700, rule="random frames"),
    Facet("backgrounds", background, lambda: st.lists(gen.bg_frame, min_size=1, max_size=4), quick=300, rule="random background frames"),
]
