from common import *
import modemlib
from props import c21


def parsers(w, case, rec):
    """each parser does what a reference of its own says, whatever the others are given meanwhile"""
    kinds = case["parsers"]
    world = [ref.Receiver(k == "raw") if k in ("raw", "serial") else c21.World(k == "fg", [(a, bytes.fromhex(h)) for a, h in it]) if k in ("fg", "bg") else None
             for k, it in kinds]
    up = [0] * len(kinds)
    r = ok(w.call("parsers", parsers=[[k, None] for k, _ in kinds], steps=case["steps"]), "several parsers")
    used, delivered = set(), 0
    for i, (s, g) in enumerate(zip(case["steps"], r["steps"])):
        j, x = s
        k = kinds[j][0]
        at = "step %d: parser %d of %s given %s: " % (i, j, [a for a, _ in kinds], short(x, 200))
        used.add(j)
        if isinstance(x, dict):
            ok(g, at)
            same(g["frame"], serial_frame(enc(x), up[j]).hex(), at + "frame built")
            up[j] = (up[j] + 1) % 256
        elif k == "alp":
            try:
                m = ref.decode_command(bytes.fromhex(x))
            except ref.Unspec:
                raise Discard()
            except ref.Reject:
                refused(g, at)
                m = None
            if m is not None:
                same(ok(g, at)["dump"], m, at + "command")
                delivered += 1
        else:
            ok(g, at)
            try:
                e = world[j].feed(bytes.fromhex(x))
            except ref.Unspec:
                raise Discard()
            for f in ("parsed", "buffer", "skipped"):
                same(g[f], e[f], at + f)
            if k in ("fg", "bg"):
                same([y for y in g["frames"] if y is not None], e["frames"], at + "frames")
                delivered += len(e["frames"])
            else:
                same(g["msgs"], e["msgs"], at + "messages")
                delivered += len(e["msgs"])
        for n, (o, (kk, _)) in enumerate(zip(g["all"], kinds)):
            if kk in ("raw", "serial"):
                same(o, [world[n].buf.hex(), world[n].down, world[n].errc, up[n]], at + "bytes kept, receive counter, error counter and send counter of parser %d" % n)
            elif kk in ("fg", "bg"):
                same(len(o[0]), world[n].have * 2, at + "bytes kept by parser %d" % n)
    rec.nontrivial(len(used) >= 2 and delivered >= 2)
    rec.label("parsers=%d" % len(used), "delivered=%d" % min(delivered, 6), *{k for k, _ in kinds})


serial_frame = ref.serial_frame


@st.composite
def mixes(draw):
    kinds, queues = [], []
    twins = draw(gen.BOOL)          # several of a kind, given the same bytes in part
    first = draw(st.sampled_from(["serial", "serial", "raw", "fg", "bg", "alp"]))
    for i in range(draw(st.integers(2, 4))):
        k = first if twins else draw(st.sampled_from(["serial", "serial", "raw", "fg", "bg", "alp"]))
        if k in ("serial", "raw"):
            s = draw(gen.stream("AAAALRUCTG", 4, k == "raw"))
            if i and twins and draw(gen.BOOL):
                q = list(queues[0])
            else:
                q = [c.hex() for c in gen.chunks_of(s)[1]][:12]
            if draw(gen.BOOL):
                for _ in range(draw(st.integers(1, 2))):
                    q.insert(draw(st.integers(0, len(q))), draw(modemlib.command()))
            kinds.append([k, None])
        elif k in ("fg", "bg"):
            h = draw(c21.histories().filter(lambda h: h["type"] == k))
            q = h["feeds"][:12]
            b = b"".join(bytes.fromhex(x) for x in h["feeds"])
            kinds.append([k, h["items"]])
        else:
            q = [draw(st.one_of(gen.alp_payload(60), gen.alp_payload(60), gen.undecodable())).hex() for _ in range(draw(st.integers(1, 4)))]
            kinds.append([k, None])
        queues.append(q)
    order = [j for j, q in enumerate(queues) for _ in q]
    order = draw(st.permutations(order))
    at = [0] * len(queues)
    steps = []
    for j in order:
        steps.append([j, queues[j][at[j]]])
        at[j] += 1
    return {"parsers": kinds, "steps": steps}


def zipped():
    """two or three parsers of a kind, byte by byte in turn"""
    f = [serial_frame(bytes.fromhex("2305204001020aff"), 1), serial_frame(bytes.fromhex("234520400003c00001"), 7), serial_frame(b"\x07", 9, 5)]
    bad = serial_frame(b"\x05\xc0\x01", 3)
    cmd = lambda tag: {"t": "Command", "actions": [], "generate_tag_request_action": True, "tag_id": tag, "send_tag_response_when_completed": True}
    for k in ("serial", "raw"):
        for streams in ([f[0], f[1]], [f[0] + f[1], b"\x01" + f[1] + f[0]], [f[0] + f[2], bad + f[0], f[1] + f[1]], [f[0], f[0][:9]]):
            steps = []
            for i in range(max(map(len, streams))):
                for j, s in enumerate(streams):
                    if i < len(s):
                        steps.append([j, s[i:i + 1].hex()])
                    if i in (3, 12):
                        steps.append([j, cmd((i + j) % 256)])
            yield {"parsers": [[k, None] for _ in streams], "steps": steps}
    g = [bytes.fromhex("0541123407ff"), bytes.fromhex("ffff00060001")]
    yield {"parsers": [["bg", [["ok", x.hex()]]] for x in g], "steps": [[j, x[i:i + 1].hex()] for i in range(6) for j, x in enumerate(g)]}
    from props import c18
    a, b = enc(c18.frame(acts=[c18.RD], flags=0xB9)), enc(c18.frame(tt="UID", ot="NOID", acts=[c18.wr(70)]))
    yield {"parsers": [["fg", [["ok", a.hex()], ["ok", b.hex()]]], ["bg", [["ok", g[0].hex()]]], ["fg", [["ok", b.hex()]]]],
           "steps": [[j, x[i:i + 1].hex()] for i in range(len(a + b)) for j, x in enumerate([a + b, g[0], b]) if i < len(x)]}


# ---------------------------------------------------------------- several modems

def modems(w, case, rec):
    r = ok(w.call("modems", plans=case["plans"], steps=case["steps"]), "several modems")
    for p, args in zip(case["plans"], r["args"]):
        for a in args:
            same(a, [p["device"], p.get("baud", 115200), 8, "N", 1, False, False, False], "serial port opened (device, baud rate, ...)")
    worlds = modemlib.several(case["plans"], case["steps"], r["steps"], rec)
    n = sum(1 for x in worlds if x.seen["own"] + x.seen["other"])
    rec.nontrivial(n >= 2)
    rec.label("modems=%d" % len(worlds), "busy=%d" % n)


@st.composite
def fleets(draw):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    devs = draw(st.permutations(["/dev/scratch0", "/dev/scratch1", "/dev/scratch10", "COM3"]))
    plans = [{"device": devs[i], "baud": draw(st.sampled_from([115200, 9600])), "callback": draw(gen.BOOL), "reboot_callback": draw(gen.BOOL)} for i in range(n)]
    steps, last, timeouts = [], [None] * n, 0
    for _ in range(draw(st.integers(2, 6))):
        j = draw(st.integers(0, n - 1))
        k = draw(st.integers(-2, 11))
        if k < 0:       # all of them at once, often with the same tag
            execs, tag = [], draw(modemlib.TAG)
            for o in draw(st.permutations(range(n)))[:draw(st.integers(2, n))]:
                c = dict(draw(modemlib.command(tags=False)))
                c["generate_tag_request_action"] = True
                c["tag_id"] = last[o] = tag if draw(gen.BOOL) else draw(modemlib.TAG)
                fs = [draw(modemlib.response(c["tag_id"], False)) if draw(gen.BOOL) else draw(modemlib.other(c["tag_id"])) for _ in range(draw(st.integers(0, 2)))]
                fs.append(draw(modemlib.response(c["tag_id"], True)))
                early = draw(st.integers(0, len(fs)))
                execs.append([o, c, [["w" if i < early else "f", ["b", f.hex()]] for i, f in enumerate(fs)]])
            steps.append([0, "both", execs])
        elif k <= 5:
            c = draw(modemlib.command())
            seen = [t for t in last if t is not None]
            if seen and c["tag_id"] is not None and draw(gen.BOOL):
                c["tag_id"] = draw(st.sampled_from(seen))
            tag = c["tag_id"]
            full = tag is not None and (timeouts >= 1 or draw(st.integers(0, 4)) > 0)
            if tag is None and timeouts >= 1:
                steps.append([j, "async", c, []])
                continue
            timeouts += not full
            fs = []
            for _ in range(draw(st.integers(0, 3))):        # the other modems hear something meanwhile, maybe with the same tag
                o = draw(st.integers(0, n - 1))
                if o == j:
                    fs.append([o, draw(modemlib.response(tag, False)) if tag is not None and draw(gen.BOOL) else draw(modemlib.other(tag))])
                else:
                    fs.append([o, draw(modemlib.response(draw(st.sampled_from([tag, last[o]])), draw(gen.BOOL))) if draw(st.integers(0, 3)) else draw(modemlib.other(tag))])
            if full:
                fs.append([j, draw(modemlib.response(tag, True))])
                if draw(gen.BOOL):
                    fs.append([(j + 1) % n, draw(modemlib.response(tag, True))])
            early = draw(st.integers(0, len(fs)))
            steps.append([j, "exec", c, 600 if full else draw(st.sampled_from([0.05, 1, 10])),
                          [["w" if i < early else "f", ["b", f.hex()], o] for i, (o, f) in enumerate(fs)]])
            last[j] = tag
        elif k <= 6:
            c = draw(modemlib.command())
            steps.append([j, "async", c, []])
            last[j] = c["tag_id"]
        elif k <= 9:
            fs = [draw(modemlib.other(last[j])) if draw(st.integers(0, 2)) else draw(modemlib.response(draw(st.sampled_from(last)), draw(gen.BOOL))) for _ in range(draw(st.integers(1, 2)))]
            items = [["b", x.hex()] for x in draw(modemlib.pieces(fs))]
            if draw(st.integers(0, 7)) == 0:
                items.append(["fail", draw(st.integers(0, 1))])
            steps.append([j, "feed", items])
        elif k == 10:
            steps.append([j, "connect", [False], []])
        else:
            steps.append([j, draw(st.sampled_from(["clear_unsol", "clear_reboots"]))])
    return {"plans": plans, "steps": steps}


def pairs():
    cmd = lambda tag: {"t": "Command", "actions": [], "generate_tag_request_action": tag is not None, "tag_id": tag, "send_tag_response_when_completed": True}
    own = lambda t, eop=True: ["b", serial_frame(enc(modemlib.tagresp(t, eop, False)) + b"\x20\x40\x00\x01\x07").hex()]
    plain = ["b", serial_frame(b"\x20\x40\x00\x01\x09").hex()]
    boot = ["b", serial_frame(b"\x03", 1, 5).hex()]
    for cb in ((False, False), (True, False), (False, True), (True, True)):
        plans = [{"device": "/dev/scratch%d" % i, "callback": c, "reboot_callback": c} for i, c in enumerate(cb)]
        pre = [[j, "connect", [False], []] for j in (0, 1)]
        for tag in (0, 7):
            for ph in "wf":
                yield {"plans": plans, "steps": pre + [[0, "exec", cmd(tag), 600, [["w", own(tag, False), 1], [ph, own(tag), 1], [ph, own(tag), 0], ["f", plain, 1]]],
                                                       [1, "exec", cmd(tag), 600, [[ph, plain, 0], [ph, own(tag), 0], [ph, own(tag), 1]]], [0, "feed", [boot, plain]], [1, "feed", [plain]]]}
        for tags in ((5, 5), (5, 6)):
            yield {"plans": plans, "steps": pre + [[0, "both", [[j, cmd(t), [["w", own(t, False)], [ph, plain], [ph, own(t)]]] for j, t in enumerate(tags)]]
                                                   for ph in "wfwf"] + [[0, "feed", [plain]], [1, "feed", [boot]]]}
        yield {"plans": plans, "steps": [pre[1], [0, "exec", cmd(5), 1, [["w", own(5), 1], ["w", own(5, False), 0]]], [1, "exec", cmd(5), 600, [["w", own(5), 1]]],
                                         [1, "clear_unsol"], [0, "clear_reboots"], [0, "feed", [plain]], [1, "feed", [boot]]]}
        yield {"plans": plans, "steps": pre + [[j % 2, "async", cmd(j), []] for j in range(6)] + [[0, "feed", [["b", plain[1][:8]]]], [1, "feed", [plain]], [0, "feed", [["b", plain[1][8:]]]],
                                               [1, "feed", [["fail", 1], plain]], [0, "feed", [plain]]]}


FACETS = [
    Facet("zipped", parsers, cases=zipped, rule="parsers of one kind given their bytes one at a time, in turn"),
    Facet("mixes", parsers, mixes, quick=900, rule="2..4 parsers of any kind with interleaved inputs; non-trivial: two used and two or more messages delivered"),
    Facet("modem pairs", modems, cases=pairs, rule="two modems, one of which is executing while the other receives the same tag", racy=True),
    Facet("modems", modems, fleets, quick=200, rule="2..3 modems with interleaved histories; non-trivial: two of them received a response", racy=True),
]
