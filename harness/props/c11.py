from common import *


def cmd(tag, acts, resp=True):
    return {"t": "Command", "actions": acts, "generate_tag_request_action": True, "tag_id": tag, "send_tag_response_when_completed": resp}


def check(w, case, rec):
    """build frames, feeding the parser that builds them in between; then feed everything to a receiver"""
    cmds = case["cmds"] * case["times"]
    ops, feeds = [], []
    for i, m in enumerate(cmds):
        ops.append(["build", m])
        if case["between"] and i % 3 == 1:
            f = ref.serial_frame(b"\x23\x01", (i * 7) & 255)
            feeds.append(len(ops))
            ops.append(["feed", f.hex()])
    r = run_serial(w, ops)
    stream, n = b"", 0
    for i, (o, x) in enumerate(zip(ops, r)):
        if o[0] == "feed":
            need(len(x["msgs"]) == 1, "a frame fed between builds was not delivered")
            continue
        p = enc(o[1])
        same(x["frame"], ref.serial_frame(p, n % 256).hex(), "frame %d" % n)
        same(x["payload"], p.hex(), "bytes of the command of frame %d, after building the frame" % n)
        stream += bytes.fromhex(x["frame"])
        n += 1
    cs = gen.split(stream, [c * len(stream) // 1000 for c in case["cuts"]])
    for skip in (False, True):
        got = []
        for s in run_serial(w, [["feed", c.hex()] for c in cs], skip):
            need(not s["skipped"], "the receiver reports errors: %s", s["errs"])
            got += s["msgs"]
        if skip:
            same(got, [{"raw": enc(m).hex(), "mt": 1} for m in cmds], "payloads received")
        else:
            same(got, [{"cmd": ref.decode_command(enc(m)), "mt": 1} for m in cmds], "commands received")
    rec.nontrivial(n >= 2)
    rec.label("frames>256" if n > 256 else "frames<=256", "max-payload=%d" % (max(len(enc(m)) for m in cmds) // 64 * 64))


@st.composite
def histories(draw):
    cmds = [cmd(draw(gen.BYTE), draw(gen.fitting_actions(limit=253, tags=False, status=False)), draw(gen.BOOL))
            for _ in range(draw(st.integers(1, 6)))]
    return {"cmds": cmds, "times": 1, "between": draw(gen.BOOL), "cuts": sorted(draw(st.lists(st.integers(0, 1000), max_size=5)))}


def sizes():
    """every payload size from 2 to 255"""
    a = lambda n, v: {"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "WriteFileData", "operand": {
        "t": "Data", "data": [v] * n, "offset": {"t": "Offset", "id": 0x40, "offset": {"t": "Length", "value": 0}}}}}
    yield {"cmds": [cmd(0, [])], "times": 1, "between": False, "cuts": []}
    for lo in range(0, 248, 8):
        yield {"cmds": [cmd(n, [a(n, (n * 37) & 255)]) for n in range(lo, lo + 8) if len(enc(a(n, 0))) <= 253], "times": 1, "between": lo % 16 == 0,
               "cuts": [500]}


def wraps():
    """more than 256 and 512 frames"""
    for n, k in ((2, 135), (3, 180), (1, 300), (2, 300)):
        yield {"cmds": [cmd(i, []) for i in range(n)], "times": k, "between": n == 2, "cuts": [3, 300, 301, 999]}


longs = lambda: st.fixed_dictionaries({"cmds": st.lists(st.builds(cmd, gen.BYTE, st.just([])), min_size=1, max_size=3),
                                       "times": st.integers(80, 200), "between": gen.BOOL, "cuts": st.just([100, 700])})

FACETS = [
    Facet("sizes", check, cases=sizes, rule="every payload size; non-trivial: two frames or more"),
    Facet("wraps", check, cases=wraps, rule="270 to 600 frames"),
    Facet("histories", check, histories, quick=900, rule="1..6 random commands, with frames received in between; non-trivial: two frames or more"),
    Facet("long", check, longs, quick=18, thorough=200, rule="80..600 frames"),
]
