from common import *


def message(f, skip):
    p = f[7:]
    if f[3] == 5:
        return {"int": p[0], "mt": 5}
    if f[3] == 4 or skip:
        return {"raw": p.hex(), "mt": f[3]}
    return {"cmd": ref.decode_command(p), "mt": f[3]}


def check(w, case, rec):
    b, cs = gen.chunks_of(case)
    steps = run_serial(w, [["feed", c.hex()] for c in cs], case["skip"])
    frames = [bytes.fromhex(h) for _, h in case["items"]]
    same([m for s in steps for m in s["msgs"]], [message(f, case["skip"]) for f in frames],
         "messages of %s%s" % (short([f.hex() for f in frames], 500), " without ALP parsing" if case["skip"] else ""))
    for s in steps:
        need(not s["skipped"], "errors reported for valid frames: %s", s["errs"])
        same(s["nm"], [len(s["msgs"])] * 2, "number of message types and messages")
    same(steps[-1]["left"], "", "bytes kept")
    kinds = {f[3] for f in frames}
    rec.nontrivial(len(kinds) >= 2 or any(len(f) > 7 for f in frames))
    rec.label("kinds=%s" % "".join(map(str, sorted(kinds))), "skip" if case["skip"] else "parse")


def bytes_():
    """every byte as logging text, as reboot reason, and unparsed"""
    for v in range(256):
        yield {"items": [["L", ref.serial_frame(bytes([v]), 1, 4).hex()], ["R", ref.serial_frame(bytes([v]), 2, 5).hex()],
                         ["L", ref.serial_frame(b"a" + bytes([v]) * 3, 3, 4).hex()], ["L", ref.serial_frame(b"", 4, 4).hex()]],
               "cuts": [], "skip": bool(v & 1)}
        yield {"items": [["A", ref.serial_frame(bytes([v]), 1, 1).hex()], ["R", ref.serial_frame(bytes([v, 9]), 2, 5).hex()],
                         ["A", ref.serial_frame(bytes(range(v)), 3, 1).hex()]], "cuts": [8], "skip": True}
    for n in range(256):
        yield {"items": [["L", ref.serial_frame(bytes(gen.pattern(n, n, 1)), 1, 4).hex()], ["A", ref.serial_frame(b"", 2, 1).hex()],
                         ["A", ref.serial_frame(gen.sized(n), 3, 1).hex()]], "cuts": [n], "skip": bool(n & 1)}


FACETS = [
    Facet("bytes", check, cases=bytes_, rule="every byte and every size as text, reason and payload; non-trivial: two kinds, or some content"),
    Facet("streams", check, lambda: gen.stream("AALLR", 7), quick=2500, rule="random valid frames of all kinds, with and without ALP parsing"),
]
