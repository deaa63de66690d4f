from modemlib import *


def check(w, case, rec):
    world, r = run(w, case["plan"], case["steps"], rec)
    n = sum(s[0] in ("exec", "async", "crowd") for s in case["steps"])
    sizes = [len(enc(s[1])) for s in case["steps"] if s[0] in ("exec", "async")]
    need(all(z <= 255 for z in sizes), "bad case")
    rec.nontrivial(n >= 2 or len(world.tx) > 100)
    rec.label("raw" if case["plan"].get("raw") else "parsed", "size>127" if sizes and max(sizes) > 127 else "small")


@st.composite
def any_command(draw):
    """also large ones, up to what fits a frame"""
    k = draw(st.integers(0, 5))
    if k <= 2:
        return draw(command())
    if k == 3:
        acts = draw(st.lists(gen.built_action(120), min_size=1, max_size=12))
    else:       # close to the limit
        n = draw(st.sampled_from([120, 121, 122, 123, 124, 125, 126, 127, 128, 200, 244, 245, 246, 247, 248, 249]))
        acts = [{"t": "RegularAction", "group": draw(gen.BOOL), "resp": draw(gen.BOOL), "operation": {"t": "WriteFileData", "operand": {
            "t": "Data", "data": list(draw(st.binary(min_size=n, max_size=n))), "offset": {"t": "Offset", "id": draw(gen.BYTE), "offset": {"t": "Length", "value": draw(st.sampled_from([0, 63]))}}}}}]
    tagged = draw(gen.BOOL)
    c = {"t": "Command", "actions": acts, "generate_tag_request_action": tagged, "tag_id": draw(TAG) if tagged else None, "send_tag_response_when_completed": draw(gen.BOOL)}
    while len(enc(c)) > 255:
        acts.pop()
    return c


@st.composite
def history(draw):
    raw = draw(gen.BOOL)
    plan = {"callback": draw(gen.BOOL), "raw": raw}
    steps = [["connect", [False], []]] if draw(gen.BOOL) else []
    waits = 0
    broken = draw(gen.BOOL)
    paused = False
    for _ in range(draw(st.integers(1, 8))):
        c = draw(any_command())
        if broken and not paused:
            steps += breaks(draw, 2)
        elif not broken and draw(st.integers(0, 5)) == 0:
            steps.append(["resume"] if paused else ["pause", []])
            paused = not paused
        if paused:
            steps.append(["async", c, []])
            continue
        k = draw(st.integers(0, 5))
        again = draw(st.integers(0, 6)) == 0       # the same command once more
        if k <= 2:
            steps.append(["async", c, []])
        elif k == 3 or raw:
            steps.append(["exec", c, 0 if not raw else draw(st.sampled_from([0, 0.05, 10, 600])), []])
        elif c["tag_id"] is not None:
            f = [["f" if draw(gen.BOOL) else "w", ["b", draw(response(c["tag_id"], True)).hex()]]]
            steps.append(["exec", c, 600, f])
        elif waits < 2:
            waits += 1
            steps.append(["exec", c, draw(st.sampled_from([0.05, 1, 10])), []])
        if again:
            steps.append(["async", c, []])
        if draw(st.integers(0, 4)) == 0:
            steps.append(["feed", [["b", draw(other(None, False)).hex()]]])
    if paused:
        steps.append(["resume"])
    return {"plan": plan, "steps": steps}


@st.composite
def answering(draw):
    """the callback executes commands itself"""
    plan = {"callback": True, "raw": draw(gen.BOOL), "echo": draw(st.lists(any_command(), min_size=1, max_size=4))}
    steps = [["connect", [False], []]]
    for _ in range(draw(st.integers(1, 4))):
        steps += breaks(draw)
        if draw(gen.BOOL):
            steps.append(["async", draw(command()), []])
        fs = [draw(response(draw(st.one_of(st.none(), TAG)), draw(gen.BOOL))) for _ in range(draw(st.integers(1, 3)))]
        steps.append(["feed", [["b", x.hex()] for x in draw(pieces(fs))]])
    return {"plan": plan, "steps": steps}


@st.composite
def crowds(draw):
    n = draw(st.integers(2, 4))
    cs = [draw(st.lists(command(), min_size=1, max_size=6)) for _ in range(n)]
    for c in cs[0]:
        c["generate_tag_request_action"], c["tag_id"] = True, c["tag_id"] or 1
    steps = [["async", draw(command()), []]] if draw(gen.BOOL) else []
    steps += breaks(draw)
    return {"plan": {"raw": draw(gen.BOOL), "slow": True}, "steps": steps + [["crowd", cs]] + ([["async", draw(command()), []]] if draw(gen.BOOL) else [])}


def wraps():
    cmd = lambda i: {"t": "Command", "actions": [], "generate_tag_request_action": True, "tag_id": i % 256, "send_tag_response_when_completed": i % 3 > 0}
    for raw in (False, True):
        yield {"plan": {"raw": raw}, "steps": [["async", cmd(i * 7), []] for i in range(270)]}
        yield {"plan": {"raw": raw}, "steps": [["exec", cmd(i), 0, []] if i % 2 else ["async", cmd(i), []] for i in range(258)]}
    yield {"plan": {}, "steps": [["exec", cmd(i), 600, [["w", ["b", serial_frame(enc(tagresp(i % 256, True, False))).hex()]]]] for i in range(260)]}
    for raw in (False, True):
        for n in (0, 2):
            fail = ["feed", [["fail", n]]]
            two = [["async", cmd(5), []], ["async", cmd(6), []]]
            yield {"plan": {"raw": raw}, "steps": two + [fail] + two + [fail, fail] + two + [["pause", []]] + two + [["resume"]] + two}
    data = lambda n: {"t": "Command", "actions": [{"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "WriteFileData", "operand": {
        "t": "Data", "data": [(n * 31 + i * 7) % 256 for i in range(n)], "offset": {"t": "Offset", "id": 0x40, "offset": {"t": "Length", "value": 0}}}}}], "generate_tag_request_action": False, "tag_id": None, "send_tag_response_when_completed": False}
    sizes = [n for n in range(0, 252) if len(enc(data(n))) <= 255]
    yield {"plan": {}, "steps": [["async", data(n), []] for n in sizes]}


FACETS = [
    Facet("counters and sizes", check, cases=wraps, rule="more commands than there are counter values, and all payload sizes"),
    Facet("histories", check, history, quick=200, rule="random mixes of synchronous and asynchronous executions"),
    Facet("from the callback", check, answering, quick=80, rule="commands executed by the response callback"),
    Facet("several threads", check, crowds, quick=40, rule="threads executing commands at the same time, on a slow port", racy=True),
]
