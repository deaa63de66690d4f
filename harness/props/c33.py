from modemlib import *


def frames(case):
    """what is delivered when the parser keeps, or forgets, what it has when the link breaks"""
    out = []
    for keep in (True, False):
        rc, ms = Receiver(bool(case["plan"].get("raw"))), []
        for st in case["steps"]:
            if st[0] != "feed":
                continue
            for it in st[1]:
                if it[0] == "fail":
                    if not keep:
                        rc.buf = b""
                else:
                    ms += rc.feed(bytes.fromhex(it[1]))["msgs"]
        out.append(ms)
    return out


def check(w, case, rec):
    try:
        a, b = frames(case)
    except ref.Unspec:
        raise Discard()
    cut = whole = False
    rc = Receiver(bool(case["plan"].get("raw")))
    n = 0
    for st in case["steps"]:
        for it in (st[1] if st[0] == "feed" else []):
            if it[0] == "fail":
                cut |= bool(rc.buf)
                n += 1
            else:
                rc.feed(bytes.fromhex(it[1]))
    if not cut:
        world, r = run(w, case["plan"], case["steps"], rec)
        seen = world.seen
    else:       # a frame is cut by a failing link: only what remains at the end is specified
        if a != b:
            raise Discard()
        steps = [s for s in case["steps"] if s[0] not in ("clear_unsol", "clear_reboots", "connect")]
        last_only(w, case["plan"], steps, rec)
        seen = {"other": sum(m["mt"] < 4 for m in a), "boot": sum(m["mt"] == 5 for m in a)}
    rec.nontrivial(seen["other"] + seen["boot"] >= 1)
    rec.label("failures=%d" % n, "cut" if cut else "whole", "reboots=%d" % seen["boot"])


def last_only(w, plan, steps, rec):
    r = ok(w.call("modem", plan=plan, steps=steps), "the modem")
    world = World(plan)
    for i, st in enumerate(steps):
        s = ok(r["steps"][i], "step %d (%s)" % (i, st[0]))
        need(s["settled"], "step %d (%s): the modem no longer reads from the serial port", i, st[0])
        if st[0] == "feed":
            world.items(st[1], cut=True)
    compare(w, r["steps"][-1], world, "at the end")
    same(r["steps"][-1]["opens"], world.opens, "number of times the serial port was opened")


PAD = ["feed", [["b", "55" * 270]]]


@st.composite
def history(draw):
    plan = {"callback": draw(gen.BOOL), "reboot_callback": draw(gen.BOOL), "raw": draw(gen.BOOL)}
    steps = []
    state = [1]
    if plan["callback"] and draw(gen.BOOL):
        steps.append(["connect", [False], []])
    for _ in range(draw(st.integers(1, 4))):
        items = []
        for _ in range(draw(st.integers(1, 4))):
            k, b = draw(gen.item(state, "AALRRUCTG", plan["raw"]))
            items.append(["b", b.hex()])
            if draw(st.integers(0, 5)) == 0:
                items.append(["fail", draw(st.integers(0, 3))])
        steps.append(["feed", items])
        if draw(st.integers(0, 3)) == 0:
            steps.append([draw(st.sampled_from(["clear_unsol", "clear_reboots"]))])
    steps.append(PAD)
    k, b = draw(gen.item(state, "A", plan["raw"]))
    if draw(gen.BOOL):
        steps.append(["feed", [["fail", draw(st.integers(0, 2))]]])
    steps.append(["feed", [["b", b.hex()]]])
    if draw(gen.BOOL):
        steps.append(["stop"])
    return {"plan": plan, "steps": steps}


@st.composite
def executing(draw):
    """the link fails before, while and after a command is executed"""
    plan = {"callback": draw(gen.BOOL), "reboot_callback": draw(gen.BOOL)}
    steps = [["connect", [False], []]] if draw(gen.BOOL) else []
    for _ in range(draw(st.integers(1, 3))):
        if draw(gen.BOOL):
            steps.append(["feed", [["fail", draw(st.integers(0, 3))]] * draw(st.integers(1, 2))])
        c = draw(command(tags=False))
        tag = c["tag_id"]
        fs = [["b", draw(response(tag, False)).hex()], ["b", draw(other(tag, junk=False)).hex()], ["fail", draw(st.integers(0, 3))]]
        fs = [fs[i] for i in draw(st.lists(st.integers(0, 2), max_size=4))] + [["b", draw(response(tag, True)).hex()]]
        steps.append(["exec", c, 600, [["f", x] for x in fs]])
    steps.append(["feed", [["b", draw(other(None, junk=False)).hex()]]])
    return {"plan": plan, "steps": steps}


def run_all(w, case, rec):
    world, r = run(w, case["plan"], case["steps"], rec)
    rec.nontrivial(world.opens > 1)
    rec.label("failures=%d" % (world.opens - 1))


def small():
    boot = lambda r: ["b", serial_frame(bytes([r]), 1, 5).hex()]
    log = lambda p: ["b", serial_frame(p, 1, 4).hex()]
    alp = ["b", serial_frame(b"\x20\x40\x00\x01\x09", 2).hex()]
    for r in range(256):
        yield {"plan": {"reboot_callback": bool(r & 1), "callback": bool(r & 2)}, "steps": [["feed", [boot(r)]], ["feed", [boot(r ^ 1), boot(r)]]]}
    for junk in (b"", b"\xc0", b"\xc0\x00", b"\xff" * 5, b"\xc0" * 9, serial_frame(b"\x05"), serial_frame(b"", 1, 5), serial_frame(b"\x20\x40", 1), b"\xc0\x00\x01\x01\x03\0\0\1\2\3",
                 serial_frame(b"\xff\xfe\x80abc\n", 1, 4), serial_frame(b"", 1, 4), serial_frame(b"", 1, 1), serial_frame(b"\x62\x05\x00", 1)):
        for plan in ({}, {"raw": True}, {"callback": True}, {"reboot_callback": True}):
            for fail in (None, 0, 1, 3):
                b = ["b", junk.hex()]
                f = [["fail", fail]] if fail is not None else []
                yield {"plan": plan, "steps": [["connect", [False], []], ["feed", [b] + f + [alp, boot(3)]], ["clear_unsol"], ["feed", [alp, alp, b]], ["clear_reboots"],
                                               PAD, ["feed", f + [boot(9), alp, log(b"x")]], ["stop"]]}


def soak():
    """many messages, reboots and failing links"""
    boot = lambda r: ["b", serial_frame(bytes([r % 256]), r % 256, 5).hex()]
    alp = lambda i: ["b", serial_frame(bytes([0x20, 0x41, 0, 2, i % 256, i // 256]), i % 256).hex()]
    for plan in ({}, {"raw": True}, {"callback": True, "reboot_callback": True}):
        pre = [["connect", [False], []]]
        yield {"plan": plan, "steps": pre + [["feed", [alp(i) for i in range(1100)]], ["feed", [boot(i) for i in range(1100)]], ["feed", [boot(1), alp(1)]]]}
        yield {"plan": plan, "steps": pre + [["feed", [x for i in range(40) for x in (alp(i), ["fail", i % 3])]], ["feed", [boot(1), alp(1)]]]}
        for n in (12, 40, 120):
            yield {"plan": plan, "steps": pre + [["feed", [alp(1), ["fail", n], alp(2), boot(1)]], ["feed", [["fail", 0], ["fail", n], alp(3)]], ["stop"]]}
        yield {"plan": plan, "steps": pre + [["feed", [["b", "c1" * 3000], alp(1), ["b", "c0" * 500], alp(2)]], PAD, ["feed", [alp(3)]]]}


FACETS = [
    Facet("soak", check, cases=soak, rule="a thousand messages and reboots, many and long failures of the link"),
    Facet("small", check, cases=small, rule="all reboot reasons; every kind of junk, with and without failing links"),
    Facet("streams", check, history, quick=260, rule="random streams of messages, garbage and failing links that deliver something"),
    Facet("executing", run_all, executing, quick=100, rule="commands executed around at least one failing link"),
]
