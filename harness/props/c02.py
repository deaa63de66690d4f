from common import *


@st.composite
def wire(draw, hi=300, most=5):
    acts = draw(gen.wire_actions(hi, most))
    acts = gen.widen(draw, acts) if draw(st.integers(0, 2)) == 0 else acts
    return {"actions": acts, "skip": draw(st.binary(max_size=3)).hex(), "junk": draw(JUNK).hex()}


def well_formed(w, case, rec):
    acts = case["actions"]
    data = b"".join(enc(a) for a in acts)
    want = ref.decode_command(data)
    if want != shown({"t": "Command", "actions": strip(acts)}):
        raise RuntimeError("reference model disagrees with itself: %s" % data.hex())
    pre = bytes.fromhex(case["skip"])
    what = "command %s" % short(data.hex(), 300)
    r = ok(parse(w, "alp", pre + data + bytes.fromhex(case["junk"]), length=len(data), skip=len(pre),
                 want=("dump", "acthex", "str", "hex", "acthex")), "parsing " + what)
    same(ok(r["dump"], "reading"), want, what)
    same(r["bits"], 8 * (len(pre) + len(data)), "bits read for " + what)
    kept = [enc(strip(a)).hex() for a in want["actions"]]
    same(ok(r["acthex"], "serialising the actions of " + what), kept, "actions serialised again")
    if want["interface_status"] is None:
        same(ok(r["hex"], "serialising " + what), "".join(kept), "bytes of the parsed command")
    rec.nontrivial(len(acts) >= 1)
    rec.label("actions=%d" % len(acts), "junk" if case["junk"] else "no-junk")
    for a in acts:
        rec.label(a["operation"]["t"] + ("/" + a["t"] if a["t"] != "RegularAction" else ""))
    if want["tag_id"] is not None and want["actions"]:
        rec.label("tag-first" if acts[0]["t"].startswith("Tag") else "tag-later")


def tags():
    """every tag id, both kinds, every flag, at every position among two actions"""
    a = {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": "ReadFileData", "operand": {
        "t": "DataRequest", "length": 8, "offset": {"t": "Offset", "id": 0, "offset": {"t": "Length", "value": 0}}}}}
    b = {"t": "RegularAction", "group": True, "resp": False, "operation": {"t": "ReturnFileData", "operand": {
        "t": "Data", "data": [1, 2, 3], "offset": {"t": "Offset", "id": 0x40, "offset": {"t": "Length", "value": 300}}}}}
    for tag in range(256):
        op = {"operand": {"t": "TagId", "tag_id": tag}}
        k = tag % 8
        for t in ([{"t": "TagRequestAction", "respond_when_completed": bool(k & 1), "operation": dict(op, t="TagRequest")},
                   {"t": "TagResponseAction", "eop": bool(k & 1), "error": bool(k & 2), "operation": dict(op, t="TagResponse")}]):
            acts = [a, b]
            acts.insert(tag % 3, t)
            yield {"actions": acts, "skip": "", "junk": ""}


def sizes():
    """data of every size class, on its own and followed by another action"""
    off = {"t": "Offset", "id": 255, "offset": {"t": "Length", "value": 2 ** 30 - 1}}
    tail = {"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "ReadFileData", "operand": {
        "t": "DataRequest", "length": 2 ** 30 - 1, "offset": off}}}
    for n in list(range(0, 70)) + [127, 128, 255, 256, 16382, 16383, 16384, 16385]:
        for op in ("WriteFileData", "ReturnFileData"):
            acts = [{"t": "RegularAction", "group": False, "resp": False, "operation": {"t": op, "operand": {
                "t": "Data", "data": gen.pattern(n, n, 3), "offset": off}}}, tail]
            yield {"actions": acts, "skip": "", "junk": "20"}


def many():
    """hundreds of actions, and much data"""
    off = {"t": "Offset", "id": 64, "offset": {"t": "Length", "value": 70}}
    rd = lambda i: {"t": "RegularAction", "group": bool(i & 1), "resp": bool(i & 2), "operation": {"t": "ReadFileData", "operand": {"t": "DataRequest", "length": i * 37, "offset": off}}}
    ret = lambda i, n: {"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "ReturnFileData", "operand": {"t": "Data", "data": gen.pattern(n, i, 7), "offset": off}}}
    tag = {"t": "TagResponseAction", "eop": True, "error": False, "operation": {"t": "TagResponse", "operand": {"t": "TagId", "tag_id": 200}}}
    for acts in ([rd(i) for i in range(600)], [rd(0)] * 1500, [ret(i, i % 90) for i in range(200)], [ret(1, 70000), rd(1)]):
        yield {"actions": acts, "skip": "", "junk": "ff"}
        yield {"actions": acts + [tag], "skip": "00", "junk": ""}


FACETS = [
    Facet("many", well_formed, cases=many, rule="hundreds of actions, 70000 bytes of data"),
    Facet("tags", well_formed, cases=tags, rule="every tag id in requests and responses"),
    Facet("sizes", well_formed, cases=sizes, rule="data of 0..69, 127, 128, 255, 256 and about 16384 bytes"),
    Facet("command", well_formed, wire, quick=5000,
          rule="random well-formed commands, minimal and longer length encodings; non-trivial: at least one action"),
]
