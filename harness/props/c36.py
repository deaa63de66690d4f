import re
from common import *
from props import c28

ADDR = re.compile(r"(0x|at |@)[0-9a-fA-F]+(?=>)")


def words(s):
    """printed text; identities of objects and spacing do not count"""
    return ADDR.sub("@", s).split()


def written(case):
    """the hexstring as typed"""
    h = bytes.fromhex(case["hex"]).hex()
    if case.get("upper"):
        h = h.upper()
    for at, n in sorted(case.get("gaps", []), reverse=True):
        h = h[:at] + " " * n + h[at:]
    return case.get("lead", "") + h + case.get("trail", "")


def hexstring(w, case, rec):
    items = []
    for c in case:
        argv = [["-t", c["type"]], ["--type", c["type"]], ["--type=" + c["type"]]][c.get("style", 0)]
        if c["type"] == "systemfile":
            argv += [["-f", str(c["id"])], ["--file-id", str(c["id"])], ["-f%d" % c["id"]]][c.get("style", 0)]
        items.append({"argv": argv + [written(c)], "hex": c["hex"], "type": c["type"], "id": c.get("id")})
    for c, it, r in zip(case, items, w.call("hexstring", items=items)["items"]):
        what = "parse_hexstring %s" % it["argv"]
        if "exc" in r["lib"]:
            raise Discard()
        ok(r, what)
        need(r.get("exit") in (None, 0), "%s ended with status %s", what, r.get("exit"))
        lib = r["lib"]
        exp = words(r["chat"])
        got = words(r["out"])
        same(got[:len(exp)], exp, "messages of the library in " + what)
        got = got[len(exp):]
        exp = [x for o in lib["objs"] for x in words(o)]
        same(got[:len(exp)], exp, "objects printed by " + what)
        same(got[len(exp):], words(lib.get("info", "")), "what else is printed by " + what)
        n = expected(c)
        if n is not None:
            same(len(lib["objs"]), n, "number of objects in " + what)
        rec.nontrivial(bool(c["hex"]) and bool(exp))
        rec.label(c["type"], "blanks" if c.get("gaps") else "plain", "objects=%d" % min(len(lib["objs"]), 3))


def expected(c):
    """how many objects there are"""
    b = bytes.fromhex(c["hex"])
    try:
        if c["type"] == "serial":
            return len(ref.Receiver().feed(b)["msgs"])
        if c["type"] == "alp":
            ref.decode_command(b)
            return 1
    except (ref.Reject, ref.Unspec):
        return None
    return 1 if c["type"] == "systemfile" else None


@st.composite
def one(draw):
    t = draw(st.sampled_from(["alp", "alp", "serial", "fg", "bg", "systemfile"]))
    c = {"type": t}
    if t == "alp":
        b = draw(gen.alp_payload())
    elif t == "serial":
        b = b"".join(bytes.fromhex(h) for _, h in draw(gen.stream(draw(st.sampled_from(["A", "AAL", "AALRPUCTG"])), most=3))["items"])
    elif t == "fg":
        b = enc(draw(gen.fg_frame(limit=draw(st.sampled_from([80, 255])), extra=draw(gen.BOOL))))
    elif t == "bg":
        b = enc(draw(gen.bg_frame))
    else:
        cls = draw(st.sampled_from(sorted(gen.FILES)))
        f = draw(gen.FILES[cls])
        c["id"] = gen.FILE_ID[cls] + (f["access_specifier"] if cls == "AccessProfileFile" else 0)
        b = enc(f)
        # the profile that is parsed does not say which access class it belongs to
    c["hex"] = b.hex()
    n = 2 * len(b)
    c["upper"] = draw(gen.BOOL)
    k = draw(st.integers(0, 3))
    if k == 0:
        c["gaps"] = [[i, 1] for i in range(2, n, 2)]
    elif k == 1:
        c["gaps"] = sorted([i, m] for i, m in draw(st.dictionaries(st.integers(0, n), st.integers(1, 3), max_size=5)).items())
    if draw(st.integers(0, 2)) == 0:
        c["lead"], c["trail"] = draw(st.sampled_from(["", " ", "\n", "  \t"])), draw(st.sampled_from(["", " ", "\n", "\r\n", " \t "]))
    c["style"] = draw(st.integers(0, 2))
    return c


def every():
    for i in sorted(ref.SYS):
        cls, n = ref.SYS[i]
        if cls is None or cls == "PhyStatusFile":
            continue
        for b in (bytes(n), bytes(0x20 + k % 0x50 for k in range(n))):
            try:
                ref.Dec(b).file(cls)
            except (ref.Reject, ref.Unspec):
                continue
            except Exception:
                continue
            yield [{"type": "systemfile", "id": i, "hex": b.hex()}]
    for n in (0, 1, 2, 64, 255):
        b = gen.sized(n)
        yield [{"type": "alp", "hex": b.hex(), "upper": u} for u in (False, True)]
        yield [{"type": "serial", "hex": (ref.serial_frame(b, 1) + ref.serial_frame(b"log", 2, 4) + ref.serial_frame(b"\x01", 3, 5)).hex(), "gaps": g} for g in ([], [[2, 1]], [[1, 2], [3, 1]])]
    yield [{"type": "serial", "hex": ""}, {"type": "serial", "hex": "00"}, {"type": "serial", "hex": "c000"}]


# ---------------------------------------------------------------- gateway

def gateway(w, case, rec):
    argv = ["--device-id", case["id"]] if case.get("long") else ["-di", case["id"]]
    if case.get("topic"):
        argv += ["-t", case["topic"]]
    if case.get("verbose"):
        argv += ["-v"]
    for k, (short_, long_) in {"device": ("-d", "--device"), "rate": ("-r", "--rate"), "broker": ("-b", "--broker")}.items():
        if k in case:
            argv += [long_ if case.get("long") else short_, str(case[k])]
    topic = (case.get("topic") or "/gw/{}").replace("{}", case["id"])
    r = ok(w.call("gateway", argv=argv, feeds=[h if h == "mqtt" else [["b", h]] if h != "fail" else [["fail", 0]] for h in case["feeds"]], startup=[["b", h] for h in case.get("startup", [])]),
           "the gateway %s" % argv)
    same(r["where"], [[{"str": case.get("broker", "localhost")}, 1883]], "MQTT broker connected to")
    for a in r["args"]:
        same(a, [case.get("device", "/dev/ttyACM0"), case.get("rate", 115200), 8, "N", 1, False, False, False], "serial port opened by %s" % argv)
    rc = ref.Receiver(True)
    exp = []

    def take(h):
        for m in rc.feed(bytes.fromhex(h))["msgs"]:
            if m["mt"] not in (1, 2, 3, 4, 5):
                raise Discard()
            if m["mt"] <= 3:
                exp.append([topic, m["raw"]])
    for h in case.get("startup", []):
        take(h)
    tx = bytes.fromhex(r["tx"])
    for i, (h, s) in enumerate(zip(case["feeds"], r["steps"])):
        what = "after feed %d (%s)" % (i, short(h, 200))
        need(s["settled"], "%s the gateway no longer reads", what)
        if h == "fail":
            if rc.buf:
                raise Discard()
        elif h != "mqtt":
            take(h)
        same(s["sent"], exp, "published " + what)
    need(len(tx) > 7 and tx == ref.serial_frame(tx[7:], 0), "the gateway did not write one request at the start: %s", tx.hex())
    rec.nontrivial(len(exp) >= 2)
    rec.label("published=%d" % min(len(exp), 5), "topic" if case.get("topic") else "default-topic", "startup" if case.get("startup") else "quiet start")


PAY = st.one_of(gen.RAW, gen.RAW, st.binary(max_size=255), gen.alp_payload(), st.sampled_from([b"", b"\0", b"\xff" * 255, b"\xc0\0" * 9, b"\x00ab\x00", b"caf\xc3\xa9", b"\xed\xa0\x80"]))


@st.composite
def frames(draw, most):
    out = b""
    c = draw(gen.BYTE)
    for _ in range(draw(st.integers(0, most))):
        k = draw(st.integers(0, 9))
        if k <= 6:
            f = ref.serial_frame(draw(PAY), c, draw(st.sampled_from([1, 1, 1, 1, 2, 3])))
        elif k == 7:
            f = ref.serial_frame(draw(PAY), c, 4)
        elif k == 8:
            f = ref.serial_frame(bytes([draw(gen.BYTE)]), c, 5)
        else:
            f = draw(st.sampled_from([b"\xc0", b"\x01\x02", b"\xc0\x00\x05\x01\x02\x00\x00ab"]))
        c = (c + 1) % 256
        out += f
        if k <= 6 and draw(st.integers(0, 4)) == 0:
            out += f        # the same once more
    return out


@st.composite
def gateways(draw):
    b = draw(frames(8))
    cuts = draw(gen.cuts(len(b))) if len(b) < 600 else []
    feeds = [x.hex() for x in gen.split(b, cuts)][:40]
    if draw(st.integers(0, 5)) == 0:
        feeds.insert(draw(st.integers(0, len(feeds))), "fail")
    if draw(st.integers(0, 5)) == 0:
        feeds.insert(draw(st.integers(0, len(feeds))), "mqtt")
    c = {"id": draw(st.sampled_from(["gw1", "0", "a/b", "4337313400210032", "x-y_z"])), "feeds": feeds, "long": draw(gen.BOOL), "verbose": draw(st.integers(0, 4)) == 0}
    if draw(gen.BOOL):
        c["topic"] = draw(st.sampled_from(["/gw/{}", "t", "{}", "a/{}/b", "/gw/{}/up", "/x"]))
    for k, v in {"device": ["/dev/ttyUSB1", "COM7"], "rate": [9600, 57600, 3000000], "broker": ["10.0.0.7", "mqtt.example.org"]}.items():
        if draw(st.integers(0, 2)) == 0:
            c[k] = draw(st.sampled_from(v))
    if draw(st.integers(0, 2)) == 0:
        s = draw(frames(2))
        c["startup"] = [s.hex()] if s else []
    return c


def payloads():
    for a in range(0, 256, 32):
        f = [ref.serial_frame(bytes([v]), i + 1) + ref.serial_frame(bytes([v, 255 - v, v ^ 0x55]), i + 2) for i, v in enumerate(range(a, a + 32))]
        yield {"id": "7", "feeds": [x.hex() for x in f]}
    yield {"id": "7", "feeds": [ref.serial_frame(bytes((i * 5 + n) % 256 for i in range(n)), n % 256).hex() for n in range(256)]}
    yield {"id": "7", "feeds": [b"".join(ref.serial_frame(bytes([i % 256, i // 256]), i % 256) for i in range(1100)).hex(), ref.serial_frame(b"x").hex()]}
    yield {"id": "7", "feeds": [ref.serial_frame(b"\x23\x01", i).hex() if i % 4 else "fail" for i in range(120)]}
    yield {"id": "7", "startup": [ref.serial_frame(b"\x23\x01", 1).hex()], "feeds": [ref.serial_frame(b"\x23\x02", 2).hex()]}


FACETS = [
    Facet("hexstring examples", hexstring, cases=every, rule="every system file, ALP and serial streams of several sizes, all spellings"),
    Facet("hexstring", hexstring, lambda: st.lists(one(), min_size=1, max_size=3), quick=400, rule="random inputs of every type"),
    Facet("gateway payloads", gateway, cases=payloads, rule="every byte value and payload length"),
    Facet("gateway", gateway, gateways, quick=250, rule="random frames of every message type, chunked; link failures; at least two published"),
]
