from modemlib import *

READ = {"t": "Offset", "id": 0, "offset": {"t": "Length", "value": 0}}


def request(world, s, what):
    """the identification request in what was written; its tag"""
    tx = bytes.fromhex(s["tx"])
    need(tx.startswith(world.tx) and len(tx) > len(world.tx), "%s: no request was written: %s", what, s["tx"])
    f = tx[len(world.tx):]
    need(len(f) >= 7 and f == serial_frame(f[7:], world.up), "%s: what was written is no frame: %s", what, f.hex())
    try:
        m = ref.decode_command(f[7:])
    except (ref.Reject, ref.Unspec) as e:
        raise Violation("%s: the request is no command: %s" % (what, f.hex()))
    need(m["tag_id"] is not None, "%s: the request has no tag: %s", what, f.hex())
    reads = sorted((a["operation"]["operand"]["offset"]["id"], a["operation"]["operand"]["offset"]["offset"]["value"], a["operation"]["operand"]["length"]["value"])
                   if a["operation"]["t"] == "ReadFileData" else (99, 0, 0) for a in m["actions"])
    need(reads == [(0, 0, 8), (2, 0, 17)], "%s: the request does not read the UID and firmware version files: %s", what, f.hex())
    world.tx, world.up = tx, (world.up + 1) % 256
    return m["tag_id"]


def resolve(it, tag):
    if it[0] != "t":
        return it
    p = bytes.fromhex(it[1]) + bytes([it[2], (tag + it[4]) % 256]) + bytes.fromhex(it[3])
    return ["b", serial_frame(p).hex()]


def connecting(world, st, s, what):
    ret = ok(s["ret"], what)
    if world.connected:
        same(s["tx"], world.tx.hex(), what + ": bytes written though connected already")
        return
    checked = not st[1] or st[1][0]
    if not checked:
        same(ret, {"v": True}, what + ": result of connecting without a check")
        same(s["tx"], world.tx.hex(), what + ": bytes written without a check")
        need(s["slept"] == 0 and s["took"] < 8, "%s: connecting without a check waited", what)
        world.connected = True
        return
    tag = request(world, s, what)
    if world.plan.get("raw"):
        same(ret, {"v": True}, what + ": result of connecting in raw mode")
        need(s["slept"] <= 1 and s["took"] < 8, "%s waited in raw mode", what)
        world.connected = True      # by then: the answer is one of the responses the caller wants to see
        for ph, it in st[2]:
            world.items([resolve(it, tag)])
        return
    world.executing(tag)
    for ph, it in st[2]:
        world.items([resolve(it, tag)])
    world.returned()
    files = {}
    if world.done:
        for a in world.own[0]["cmd"]["actions"]:
            if a["operation"]["t"] == "ReturnFileData":
                o = a["operation"]["operand"]
                files.setdefault(o["offset"]["id"], []).append(bytes(o["data"]))
    if world.done and 0 in files and 2 in files:
        same(ret, {"v": True}, what + ": result, though the modem answered")
        world.connected = True
        fw = ref.Dec(files[2][0]).file("FirmwareVersionFile")
        same(s["fw"], fw, what + ": firmware version")
        need(isinstance(s["uid"], dict) and "str" in s["uid"], "%s: UID is %s", what, s["uid"])
        same(s["uid"]["str"].lower().lstrip("0"), files[0][0].hex().lstrip("0"), what + ": UID")
        world.uid, world.fw = s["uid"], s["fw"]
    else:
        same(ret, {"v": False}, what + ": result, though the answer was %s" % ("incomplete" if world.done else "missing"))


def check(w, case, rec):
    world, r = run(w, case["plan"], case["steps"], rec, connecting)
    if hasattr(world, "uid"):
        last = r["steps"][-1]
        same([last["uid"], last["fw"]], [world.uid, world.fw], "identification at the end")
    n = sum(s[0] == "connect" for s in case["steps"])
    rec.nontrivial(any(s[0] == "connect" and s[2] for s in case["steps"]))
    rec.label("raw" if case["plan"].get("raw") else "parsed", "connected" if world.connected else "failed", "attempts=%d" % n)


def ret(fid, data, off=0):
    return enc({"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "ReturnFileData", "operand": {"t": "Data", "data": list(data), "offset": {
        "t": "Offset", "id": fid, "offset": {"t": "Length", "value": off}}}}})


UID = st.one_of(st.binary(min_size=8, max_size=8), st.sampled_from([bytes(8), b"\0" * 7 + b"\1", b"\xff" * 8, b"\x80" + bytes(7), b"\x0f" + b"\xee" * 7]))
FW = st.builds(lambda v, n: v + n, st.binary(min_size=4, max_size=4), st.lists(st.integers(0x20, 0x7E), min_size=13, max_size=13).map(bytes))


@st.composite
def answer(draw, kind):
    """the frames that answer the identification request"""
    u, f = ret(0, draw(UID)), ret(2, draw(FW))
    parts = {"full": [u, f], "nouid": [f], "nofw": [u], "none": [], "silent": []}[kind]
    extra = [ret(draw(st.integers(0x40, 0xFF)), draw(st.binary(max_size=5))) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
    if draw(st.integers(0, 4)) == 0:
        extra.append(enc(gen_status(draw)))
    parts = draw(st.permutations(parts + extra))
    k = draw(st.integers(0, len(parts)))
    before, after = b"".join(parts[:k]), b"".join(parts[k:])
    out = []
    for _ in range(draw(st.integers(0, 2))):
        out.append(noise(draw))
    if kind == "silent":
        if draw(gen.BOOL):      # an answer to something else, or one that does not complete
            out.append(["t", before, draw(st.sampled_from([0xA3, 0xE3])), after, draw(st.integers(1, 255))] if draw(gen.BOOL) else ["t", before, 0x23, after, 0])
    elif draw(st.integers(0, 4)) == 0 and kind != "none":
        out += [["t", before, 0x23, after, 0], ["t", b"", draw(st.sampled_from([0xA3, 0xE3])), b"", 0]]
    else:
        out.append(["t", before, draw(st.sampled_from([0xA3, 0xA3, 0xE3])), after, 0])
    if draw(st.integers(0, 3)) == 0:
        out.append(noise(draw))
    return [[x.hex() if isinstance(x, bytes) else x for x in it] for it in out]


def gen_status(draw):
    return draw(gen.status.map(lambda s: gen.status_action(0xD7, s)))


def noise(draw):
    return ["b", draw(st.one_of(response(None, False), st.binary(max_size=9).map(lambda b: serial_frame(b, 1, 4)), st.just(serial_frame(b"\x01", 1, 5)),
                                st.just(serial_frame(b"\x05")), st.sampled_from([b"\x55", b"\xc0"]))).hex()]


@st.composite
def history(draw):
    plan = {"callback": draw(gen.BOOL), "reboot_callback": draw(gen.BOOL), "raw": draw(st.integers(0, 4)) == 0}
    steps = []
    slow = 0
    for i in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["full", "full", "nouid", "nofw", "none", "silent"]))
        steps += breaks(draw)
        if k == "silent":
            slow += 1
            if slow > 1:
                k = "nouid"
        arg = [] if draw(st.integers(0, 5)) else draw(st.sampled_from([[True], [False]]))
        a = draw(answer(k)) if arg != [False] else []
        ph = draw(st.integers(0, len(a)))
        if plan["callback"] and a and a[-1][0] == "b":     # after the answer: connected by then, or not yet?
            ph = len(a)
        steps.append(["connect", arg, [["w" if i < ph else "f", x] for i, x in enumerate(a)]])
        if draw(gen.BOOL):
            steps.append(["feed", [noise(draw)]])
        steps += breaks(draw)
        if arg == [False]:
            break
    return {"plan": plan, "steps": steps}


def layouts():
    u, f = bytes.fromhex("0123456789abcdef"), bytes([1, 2, 3, 4]) + b"app   abc1234"
    full = lambda *p: ["t", b"".join(p).hex(), 0xA3, "", 0]
    late = lambda *p: ["t", "", 0xA3, b"".join(p).hex(), 0]
    con = lambda *a: ["connect", [], [["w", x] for x in a]]
    after = ["feed", [["b", serial_frame(b"\x20\x40\x00\x01\x09").hex()]]]
    for plan in ({}, {"callback": True}):
        yield {"plan": plan, "steps": [con(full(ret(0, u), ret(2, f))), after, con()]}
        yield {"plan": plan, "steps": [con(late(ret(2, f), ret(0, u))), after, con()]}
        yield {"plan": plan, "steps": [con(late(ret(2, f))), after, con(late(ret(0, u))), after, con(late(ret(0, u[::-1]), ret(2, f))), after]}
        yield {"plan": plan, "steps": [con(late(ret(0, u))), after, con(late(ret(2, f))), after]}
        yield {"plan": plan, "steps": [con(), after, con(late(ret(0, u), ret(2, f))), after]}
        yield {"plan": plan, "steps": [["connect", [False], []], after, con()]}
        yield {"plan": dict(plan, raw=True), "steps": [con(full(ret(0, u), ret(2, f))), after, con()]}
        yield {"plan": dict(plan, raw=True), "steps": [con(), after, con()]}
    for v in range(0, 256):
        yield {"plan": {}, "steps": [con(full(ret(0, bytes([0] * 6 + [v ^ 0x5A, v])), ret(2, bytes([v, 255 - v, v ^ 0x3C, v ^ 0x0F]) + b"name  sha1234")))]}


FACETS = [
    Facet("layouts", check, cases=layouts, rule="answers in both orders, missing parts, repeated attempts, all byte values in the files"),
    Facet("histories", check, history, quick=200, rule="random identifications that get something in reply"),
]
