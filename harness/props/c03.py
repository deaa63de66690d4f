from common import *


def cut(w, case, rec):
    """a well-formed command that ends before its declared length"""
    data = b"".join(enc(a) for a in case["actions"])
    k = case["cut"] * len(data) // 1000
    if not len(data):
        raise Discard()
    part = data[:k]
    refused(parse(w, "alp", part, length=len(data)), "command %s cut to %d bytes" % (short(data.hex(), 300), k))
    # declared to end where it was cut: only valid when cut between two actions
    m = decodes(w, "alp", part, lambda d: d.command(len(part)), length=len(part))
    rec.nontrivial()
    rec.label("cut-between-actions" if m is not None else "cut-inside-action")


@st.composite
def cuts(draw):
    acts = draw(gen.wire_actions(80, 4))
    if not acts:
        acts = [draw(gen.wire_action(80))]
    return {"actions": acts, "cut": draw(st.integers(0, 999))}


def mutated(w, case, rec):
    data = bytes.fromhex(case)
    m = decodes(w, "alp", data, lambda d: d.command(len(data)), length=len(data))
    rec.nontrivial(len(data) >= 2)
    rec.label("accepted" if m is not None else "rejected")


@st.composite
def mutations(draw):
    b = bytearray(b"".join(enc(a) for a in gen.widen(draw, draw(gen.wire_actions(40, 3)))))
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 5))
        i = draw(st.integers(0, len(b)))
        if k == 0:
            b[i:i] = draw(st.binary(min_size=1, max_size=3))
        elif k == 1:
            del b[i:i + draw(st.integers(1, 3))]
        elif k == 2 and i < len(b):
            b[i] ^= 1 << draw(st.integers(0, 7))
        elif k == 3 and i < len(b):
            b[i] = draw(gen.BYTE)
        elif k == 4:
            b += b[:i]
        elif i < len(b):
            b[i] = draw(st.sampled_from([0x22, 0x62, 0xA2, 0xE2, 0x23, 0x34, 0x74, 0x32, 0xB2, 0x33, 0x09, 0x05, 0xFF]))
    return bytes(b).hex()


def raw():
    head = st.sampled_from([1, 4, 9, 17, 32, 33, 34, 35, 50, 51, 52, 0x62, 0xA2, 0xB2, 0xB3, 0xA3])
    return st.one_of(st.binary(max_size=40), st.builds(lambda h, b: bytes([h]) + b, head, st.binary(max_size=30))).map(
        lambda b: b.hex())


def headers():
    """every header byte before several tails, every enumeration byte of forward and query"""
    tails = [b"", b"\0", b"\0" * 16, b"\xff" * 30, bytes.fromhex("d7000000100001"), bytes.fromhex("40000100") + b"\0" * 12,
             bytes.fromhex("00d70000"), bytes.fromhex("0000010200"), bytes.fromhex("d701")]
    for h in range(256):
        for t in tails:
            yield (bytes([h]) + t).hex()
    for h in (0x32, 0x72):
        for i in range(256):
            for t in (b"", b"\0" * 3, b"\0" * 11, bytes.fromhex("000000100000")):
                yield (bytes([h, i]) + t).hex()
    for i in range(256):
        yield bytes([0x09, i, 1, 5, 0x40, 0]).hex()
        yield bytes([0x32, 0xD7, i, 0, 0x10, 0]).hex()
        yield bytes([0x32, 0xD7, 0, 0, i, 0, 1, 2, 3, 4, 5, 6, 7, 8]).hex()
        yield bytes([0xB3, 1, i, 0, 1, 2, 3, 4, 5, 6, 7, 8]).hex()
        yield (bytes([0x11, 0x40, 0x55, i]) + b"\1" * 10).hex()
        yield (bytes([0x62, 0xD7, 14, i]) + bytes.fromhex("0001020304f0070805") + b"\x10\x00").hex()
        yield (bytes([0x62, i, 0])).hex()


def several(w, case, rec):
    """more than one tag or interface status anywhere in the command"""
    data = b"".join(enc(a) for a in case)
    n = sum(a["t"] in ("TagRequestAction", "TagResponseAction") for a in case)
    s = sum(a["t"] == "StatusAction" for a in case)
    r = parse(w, "alp", data, length=len(data))
    if n > 1 or s > 1:
        refused(r, "command %s with %d tags and %d interface statuses" % (short(data.hex(), 300), n, s))
    else:
        same(ok(ok(r, "parsing")["dump"], "reading"), ref.decode_command(data), "command")
    rec.nontrivial(n > 1 or s > 1)
    rec.label("tags=%d status=%d" % (n, s))


@st.composite
def manys(draw):
    acts = draw(st.lists(st.one_of(gen.tag_request, gen.tag_response, gen.interface_status, gen.wire_action(20)),
                         min_size=1, max_size=5))
    return acts


def trailing(w, case, rec):
    """what follows a command cannot change it"""
    data = b"".join(enc(a) for a in case["actions"])
    want = ref.decode_command(data)
    for j in case["junk"]:
        r = ok(parse(w, "alp", data + bytes.fromhex(j), length=len(data)), "parsing")
        same(ok(r["dump"], "reading"), want, "command %s followed by %s" % (short(data.hex(), 300), j))
        same(r["bits"], 8 * len(data), "bits read")
    rec.nontrivial(len(set(case["junk"])) > 1)


@st.composite
def trailings(draw):
    return {"actions": draw(gen.wire_actions(40, 3)),
            "junk": ["", draw(st.sampled_from(["20400001ff", "3455", "b401", "ff", "00", "62d700"])),
                     draw(st.binary(min_size=1, max_size=20)).hex()]}


FACETS = [
    Facet("headers", mutated, cases=headers, rule="every header byte and enumeration byte with fixed tails"),
    Facet("cut", cut, cuts, quick=1200, rule="well-formed command cut before its declared length"),
    Facet("mutated", mutated, mutations, quick=2200, rule="well-formed bytes with 1..3 edits; non-trivial: at least 2 bytes"),
    Facet("raw", mutated, raw, quick=1500, rule="random bytes; non-trivial: at least 2 bytes"),
    Facet("several", several, manys, quick=700, rule="non-trivial: more than one tag or status"),
    Facet("trailing", trailing, trailings, quick=400, rule="non-trivial: different bytes follow the command"),
]
