from modemlib import *

DEVICES = ["/dev/scratch", "/dev/ttyUSB0", "COM3", "/dev/serial/by-id/usb-x", "/dev/tty.usbmodem14201", "loop://", "x"]
BAUDS = [115200, 9600, 57600, 1200, 921600, 3000000]


def check(w, case, rec):
    world, r = run(w, case["plan"], case["steps"], rec)
    n = sum(s[0] == "pause" for s in case["steps"])
    rec.nontrivial(n and world.seen["other"] + world.seen["boot"] >= 1 or world.opens > 1)
    rec.label("pauses=%d" % min(n, 6), "opens=%d" % min(world.opens, 6), "baud=%d" % case["plan"].get("baud", 115200),
              *sorted({s[0] for s in case["steps"]}))


@st.composite
def items(draw, state, plan, lo=1, hi=3, fails=True):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        k, b = draw(gen.item(state, "AALRU", bool(plan.get("raw"))))
        if draw(gen.BOOL) and len(b) > 1:
            c = draw(st.integers(1, len(b) - 1))
            out += [["b", b[:c].hex()], ["b", b[c:].hex()]]
        else:
            out.append(["b", b.hex()])
        if fails and draw(st.integers(0, 5)) == 0:
            out.append(["fail", draw(st.integers(0, 3))])
    return out


@st.composite
def history(draw):
    plan = {"callback": draw(gen.BOOL), "reboot_callback": draw(gen.BOOL), "raw": draw(gen.BOOL), "device": draw(st.sampled_from(DEVICES)),
            "baud": draw(st.sampled_from(BAUDS))}
    steps, state = [], [1]
    if plan["callback"] and draw(st.integers(0, 2)):
        steps.append(["connect", [False], []])
    for _ in range(draw(st.integers(1, 4))):
        if draw(gen.BOOL):
            steps.append(["feed", draw(items(state, plan))])
        cut = b""
        if draw(st.integers(0, 2)) == 0:      # stopped in the middle of a message
            b = draw(gen.item(state, "A", plan["raw"]))[1]
            c = draw(st.integers(1, len(b) - 1))
            steps.append(["feed", [["b", b[:c].hex()]]])
            cut = b[c:]
        steps.append(["pause", ([["b", cut.hex()]] if cut else []) + draw(items(state, plan)) if draw(gen.BOOL) else []])
        racing = steps[-1][1]
        if cut and not steps[-1][1]:
            steps.append(["feed", [["b", cut.hex()]]])
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 3))
            if k <= 1 or k == 2 and any(it[0] == "fail" for it in racing):      # the port may be closed then
                steps.append(["feed", draw(items(state, plan))])
            elif k == 2:
                steps.append(["async", draw(command()), []])
            else:
                steps.append(["pause", []])
        steps.append(["resume"])
    if draw(gen.BOOL):
        c = draw(command(tags=False))
        steps.append(["exec", c, 600, [["f", ["b", draw(response(c["tag_id"], True)).hex()]]]])
    steps.append(["feed", draw(items(state, plan))])
    if draw(gen.BOOL):
        steps.append(["stop"])
    return {"plan": plan, "steps": steps}


def small():
    boot = lambda r: ["b", serial_frame(bytes([r]), 1, 5).hex()]
    alp = serial_frame(b"\x20\x40\x00\x01\x09", 2)
    a = ["b", alp.hex()]
    for plan in ({}, {"raw": True}, {"callback": True}, {"reboot_callback": True}):
        start = [["connect", [False], []]] if plan.get("callback") else []
        for c in range(1, len(alp)):
            yield {"plan": plan, "steps": start + [["feed", [["b", alp[:c].hex()]]], ["pause", []], ["resume"], ["feed", [["b", alp[c:].hex()], boot(1)]],
                                                   ["pause", []], ["feed", [a, boot(2)]], ["resume"], ["stop"]]}
        for n in range(4):
            yield {"plan": plan, "steps": start + [["pause", []], ["pause", []], ["feed", [a, ["fail", n], boot(7), a]], ["resume"], ["pause", [["fail", n], a]], ["resume"],
                                                   ["feed", [["fail", n], a]], ["stop"]]}
        yield {"plan": plan, "steps": start + [["pause", []], ["resume"]] * 8 + [["feed", [a]]] + [["pause", [a]], ["resume"]] * 8 + [["feed", [boot(1), a]]]}
        for d in DEVICES:
            for b in BAUDS:
                yield {"plan": dict(plan, device=d, baud=b), "steps": start + [["feed", [a, ["fail", 0], a, ["fail", 2], boot(3), a]]]}


FACETS = [
    Facet("small", check, cases=small, rule="stopped at every byte of a message; device names, baud rates, failing links; non-trivial: something delivered, or reopened", racy=True),
    Facet("history", check, history, quick=350, racy=True,
          rule="histories of feeding, stopping, starting, writing and failing links; non-trivial: something delivered around a stop, or the port reopened"),
]
