from common import *


def check(w, case, rec):
    b, cs = gen.chunks_of(case)
    steps = run_serial(w, [["feed", c.hex()] for c in cs], case["skip"])
    rc, out = agree(steps, cs, case["skip"])
    total = sum(s["parsed"] // 8 + sum(s["skipped"]) for s in steps) + len(steps[-1]["left"]) // 2
    same(total, len(b), "bytes delivered, skipped and kept")
    rec.nontrivial(rc.errors and rc.frames)
    rec.label("errors=%d" % min(rc.errors, 5), "frames=%d" % min(rc.frames, 5), "kept" if steps[-1]["left"] else "nothing-kept")
    for k, _ in case["items"]:
        rec.label("item-" + k)


noisy = lambda: gen.stream("AAALRUCCTTGGG", 8)


def recover(w, case, rec):
    """garbage, a frame, and enough bytes to complete any false start"""
    g, f = bytes.fromhex(case["garbage"]), bytes.fromhex(case["frame"])
    tail = b"\x00" * 262
    steps = run_serial(w, [["feed", x.hex()] for x in (g, f, tail)], case["skip"])
    rc, _ = agree(steps, [g, f, tail], case["skip"])
    if b"\xc0\x00" not in g and not g.endswith(b"\xc0"):
        # nothing in the garbage looks like a frame
        same(len(steps[0]["msgs"]) + len(steps[1]["msgs"]), 1, "messages delivered by the time the frame is complete after %s" % g.hex())
    rec.nontrivial(len(g) > 0)
    rec.label("false-start" if b"\xc0\x00" in g else "no-false-start")


@st.composite
def recovers(draw):
    skip = draw(gen.BOOL)
    g = draw(st.one_of(st.binary(max_size=40), st.lists(st.sampled_from([0xC0, 0, 0xC0, 1, 255, 7]), max_size=30).map(bytes)))
    _, f = draw(gen.item([draw(gen.BYTE)], "ALR", skip))
    return {"garbage": g.hex(), "frame": f.hex(), "skip": skip}


def headers():
    """every value of each header byte of a frame, followed by a good frame"""
    good = ref.serial_frame(b"\x23\x42", 2)
    base = ref.serial_frame(b"\x23\x41", 1)
    for i in range(len(base)):
        for v in range(256):
            f = base[:i] + bytes([v]) + base[i + 1:]
            for skip in (bool((v >> 1 ^ v ^ i) & 1),):
                yield {"items": [["H", f.hex()], ["A", good.hex()], ["A", (good * (30 if i == 4 else 1)).hex()]], "cuts": [len(f), len(f) + len(good)], "skip": skip}


FACETS = [
    Facet("headers", check, cases=headers, rule="every value of every byte of a frame; non-trivial: an error and a delivered frame"),
    Facet("noisy", check, noisy, quick=2500, rule="random noisy streams, chunked; non-trivial: an error and a delivered frame"),
    Facet("recover", recover, recovers, quick=900, rule="garbage then a frame; non-trivial: some garbage"),
]
