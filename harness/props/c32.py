from modemlib import *


def check(w, case, rec):
    world, r = run(w, case["plan"], case["steps"], rec)
    n = sum(s[0] == "exec" for s in case["steps"])
    rec.nontrivial(n >= 1 and world.seen["own"] >= 1 and world.seen["other"] >= 1)
    rec.label("executions=%d" % n, "callback" if case["plan"].get("callback") else "list")


@st.composite
def replies(draw, tag, complete):
    """frames that arrive once the command was written"""
    fs = []
    for _ in range(draw(st.integers(0, 2))):
        fs.append(draw(response(tag, False)) if tag is not None and draw(gen.BOOL) else draw(other(tag)))
    if complete:
        fs.append(draw(response(tag, True)))
        for _ in range(draw(st.integers(0, 2))):
            fs.append(draw(other(tag)) if draw(st.integers(0, 4)) else draw(response(tag, draw(gen.BOOL))))
    else:
        for _ in range(draw(st.integers(0, 2))):
            fs.append(draw(other(tag)))
    ps = [["b", x.hex()] for x in draw(pieces(fs))]
    early = draw(st.integers(0, len(ps)))
    if draw(gen.BOOL):
        early = draw(st.sampled_from([0, len(ps)]))
    out = [["w" if i < early else "f", p] for i, p in enumerate(ps)]
    if complete and draw(st.integers(0, 4)) == 0:       # the link fails between two of them
        k = draw(st.integers(0, len(out)))
        out = out[:k] + [["f", ["fail", draw(st.integers(0, 2))]]] + [["f", p] for _, p in out[k:]]
    return out


@st.composite
def history(draw, most=5):
    plan = {"callback": draw(gen.BOOL), "reboot_callback": draw(gen.BOOL)}
    steps = []
    last = None
    timeouts = 0
    for _ in range(draw(st.integers(1, most))):
        k = draw(st.integers(0, 11))
        if k <= 5:
            c = draw(command())
            if last is not None and c["tag_id"] is not None and draw(st.integers(0, 3)) == 0:
                c["tag_id"] = last
            tag = c["tag_id"]
            full = tag is not None and (timeouts >= 1 or draw(st.integers(0, 4)) > 0)
            if tag is None and timeouts >= 1:
                steps.append(["async", c, draw(replies(last, False))])
                continue
            timeouts += not full
            steps.append(["exec", c, 600 if full else draw(st.sampled_from([0.05, 0.5, 1, 1.5, 2.75, 10])), draw(replies(tag, full))])
            last = tag
        elif k <= 7:
            c = draw(command())
            fs = [draw(response(c["tag_id"], draw(gen.BOOL))) if draw(gen.BOOL) else draw(other(c["tag_id"])) for _ in range(draw(st.integers(0, 2)))]
            steps.append(["async", c, [[draw(st.sampled_from("wf")), ["b", x.hex()]] for x in fs]])
            steps[-1][2].sort(key=lambda r: r[0] != "w")
            last = c["tag_id"]
        elif k <= 9:
            fs = [draw(other(last)) if draw(st.integers(0, 3)) else draw(response(last, draw(gen.BOOL))) for _ in range(draw(st.integers(1, 3)))]
            steps.append(["feed", [["b", x.hex()] for x in draw(pieces(fs))]])
            steps += breaks(draw, 3)
        elif k == 10:
            steps.append(["connect", [False], []])
        else:
            steps.append([draw(st.sampled_from(["clear_unsol", "clear_reboots"]))])
    return {"plan": plan, "steps": steps}


def basic():
    """one execution, all small arrangements of responses around it"""
    cmd = lambda tag: {"t": "Command", "actions": [], "generate_tag_request_action": tag is not None, "tag_id": tag, "send_tag_response_when_completed": True}
    kinds = {"own": lambda t: serial_frame(enc(tagresp(t, False, False)) + b"\x20\x40\x00\x01\x07"), "done": lambda t: serial_frame(enc(tagresp(t, True, False))),
             "err": lambda t: serial_frame(enc(tagresp(t, True, True))), "other": lambda t: serial_frame(enc(tagresp((t + 1) % 256, True, False))),
             "none": lambda t: serial_frame(b"\x20\x40\x00\x01\x09"), "log": lambda t: serial_frame(enc(tagresp(t, True, False)), 1, 4),
             "boot": lambda t: serial_frame(b"\x07", 1, 5), "req": lambda t: serial_frame(enc(tagreq(t, True)))}
    for tag in (0, 1, 255):
        for cb in (False, True):
            for seq in (["done"], ["err"], ["own", "done"], ["other", "own", "done"], ["none", "done"], ["log", "done"], ["boot", "done"], ["req", "done"],
                        ["own", "other", "own", "none", "own", "done", "other"], ["done", "done"], ["done", "none"]):
                for ph in "wf":
                    for conn in (False, True):
                        steps = [["connect", [False], []]] if conn else []
                        steps.append(["feed", [["b", kinds[x](tag).hex()] for x in ("other", "done")]])
                        steps.append(["exec", cmd(tag), 600, [[ph, ["b", kinds[x](tag).hex()]] for x in seq]])
                        steps.append(["feed", [["b", kinds[x](tag).hex()] for x in ("none", "other")]])
                        if ph == "w" and conn == cb:
                            yield {"plan": {"callback": cb, "reboot_callback": False}, "steps": steps}
                        elif tag == 1 and cb:
                            yield {"plan": {"callback": cb, "reboot_callback": True}, "steps": steps + steps[-2:]}
        yield {"plan": {"callback": True}, "steps": [["connect", [False], []], ["exec", cmd(None), 1, [["w", ["b", kinds["none"](0).hex()]]]],
                                                     ["exec", cmd(tag), 10, [["w", ["b", kinds["own"](tag).hex()]], ["w", ["b", kinds["none"](tag).hex()]]]],
                                                     ["exec", cmd(tag), 0.75, []], ["exec", cmd(tag), 2.5, [["f", ["b", kinds["own"](tag).hex()]]]],
                                                     ["exec", cmd((tag + 1) % 256), 600, [["w", ["b", kinds["other"](tag).hex()]]]]]}


def soak():
    """long histories: many responses, many executions, many messages in between"""
    cmd = lambda tag: {"t": "Command", "actions": [], "generate_tag_request_action": True, "tag_id": tag, "send_tag_response_when_completed": True}
    own = lambda t, i=0, eop=False: ["b", serial_frame(enc(tagresp(t, eop, False)) + bytes([0x20, 0x40, 0, 1, i % 256]), i % 256).hex()]
    oth = lambda i: ["b", serial_frame(bytes([0x20, 0x41, 0, 2, i % 256, i // 256]), i % 256).hex()]
    for cb in (False, True):
        pre = [["connect", [False], []]] if cb else []
        plan = {"callback": cb}
        yield {"plan": plan, "steps": pre + [["exec", cmd(9), 600, [["w", own(9, i)] for i in range(320)] + [["f", own(9, 320, True)]]], ["feed", [oth(1)]]]}
        yield {"plan": plan, "steps": pre + [["exec", cmd(9), 600, [["w", oth(i)] for i in range(320)] + [["w", own(9)], ["w", own(9, 1, True)], ["w", oth(320)]]]]}
        yield {"plan": plan, "steps": pre + [["exec", cmd(i * 5 % 256), 600, [["w", own(i * 5 % 256, i)], ["w", oth(i)], ["w", own(i * 5 % 256, i, True)]]] for i in range(280)]}
        yield {"plan": plan, "steps": pre + [["exec", cmd(3), 0.05, [["w", oth(i)]]] for i in range(40)] + [["exec", cmd(3), 600, [["w", own(3, 1, True)]]], ["feed", [oth(7)]]]}
        yield {"plan": plan, "steps": pre + [["feed", [oth(i) for i in range(1100)]], ["exec", cmd(3), 600, [["w", own(3, 1, True)]]], ["clear_unsol"], ["feed", [oth(7), oth(7)]]]}


FACETS = [
    Facet("soak", check, cases=soak, rule="hundreds of responses, of executions, and of messages that nobody waits for"),
    Facet("basic", check, cases=basic, rule="one or two executions with every kind of message before, during and after"),
    Facet("histories", check, history, quick=260, rule="random histories of executions with at least one response of their own and one of others"),
]
