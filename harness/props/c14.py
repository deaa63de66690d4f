from common import *


def check(w, case, rec):
    b, cs = gen.chunks_of(case)
    steps = run_serial(w, [["feed", c.hex()] for c in cs])
    items = [(k, bytes.fromhex(h)) for k, h in case["items"]]
    bad = [f for k, f in items if k == "U"]
    rec.nontrivial(len(bad) and len(bad) < len(items))
    rec.label("bad=%d" % len(bad), "good=%d" % (len(items) - len(bad)))
    if all(b"\xc0\x00" not in f[1:] for f in bad):
        # nothing inside the bad frames looks like a frame: all others are delivered as soon as they are complete
        ends, p, exp = [], 0, []
        for k, f in items:
            p += len(f)
            if k != "U":
                ends.append((p, message(f)))
        p = 0
        for c in cs:
            exp.append([m for e, m in ends if p < e <= p + len(c)])
            p += len(c)
        for i, s in enumerate(steps):
            same(s["msgs"], exp[i], "messages delivered by chunk %d of %s" % (i, short([[k, h] for k, h in case["items"]], 500)))
        n = sum(len(s["skipped"]) for s in steps)
        need(n >= len(bad) if not steps[-1]["left"] or items[-1][0] != "U" else n >= len(bad) - 1,
             "%d undecodable frames, %d errors reported", len(bad), n)
        same(sum(sum(s["skipped"]) for s in steps) + len(steps[-1]["left"]) // 2, sum(map(len, bad)), "bytes skipped or kept")
    else:
        rec.label("false-start-inside")
    agree(steps, cs, False)


def message(f):
    p = f[7:]
    if f[3] == 5:
        return {"int": p[0], "mt": 5}
    if f[3] == 4:
        return {"raw": p.hex(), "mt": 4}
    return {"cmd": ref.decode_command(p), "mt": f[3]}


streams = lambda: gen.stream("AALRUUU", 6, skip=False)


def fixed():
    """a good frame, one whose payload is some header byte and tail, and a good frame"""
    g1, g2 = ref.serial_frame(b"\x23\x41", 1), ref.serial_frame(b"\x20\x40\x00\x01\x07", 3)
    for h in range(256):
        for t in (b"", b"\0", b"\0" * 9, b"\xff" * 9, bytes.fromhex("d70a0000"), bytes.fromhex("0000050102")):
            p = bytes([h]) + t
            try:
                ref.decode_command(p)
            except ref.Reject:
                pass
            except ref.Unspec:
                continue
            else:
                continue
            f = ref.serial_frame(p, 2)
            yield {"items": [["A", g1.hex()], ["U", f.hex()], ["A", g2.hex()]], "cuts": [len(g1) + len(f)], "skip": False}
    for mt in (5,):
        f = ref.serial_frame(b"", 2, mt)
        yield {"items": [["A", g1.hex()], ["U", f.hex()], ["A", g2.hex()]], "cuts": [], "skip": False}


FACETS = [
    Facet("fixed", check, cases=fixed, rule="every first byte of an undecodable payload; non-trivial: good and bad frames"),
    Facet("streams", check, streams, quick=2500, rule="random frames, some with undecodable payloads, chunked; non-trivial: good and bad frames"),
]
