from common import *


def check(w, case, rec):
    b, cs = gen.chunks_of(case)
    steps = run_serial(w, [["feed", c.hex()] for c in cs], case["skip"])
    rc, out = agree(steps, cs, case["skip"])
    rec.nontrivial(rc.frames >= 2)
    rec.label("frames=%d" % min(rc.frames, 6), "counted=%d" % min(rc.errc, 6), "chunks=%s" % ("many" if len(cs) > 3 else len(cs)))


def numbered(w, case, rec):
    """valid frames with the given counters, each in its own chunks"""
    ops, at, n = [], [], 0
    for c in case["counters"]:
        f = ref.serial_frame(bytes.fromhex(case["payload"]), c, case["mt"])
        k = [x * len(f) // 100 for x in case["cuts"]]
        for i, ch in enumerate(gen.split(f, k)):
            ops.append(["feed", ch.hex()])
            n += len(ch)
            at.append(n % len(f) == 0 and n)
    steps = run_serial(w, ops)
    down, errc, i, got = 0, 0, 0, 0
    size = 7 + len(case["payload"]) // 2
    for s, n in zip(steps, at):
        done = 0
        while i < len(case["counters"]) and n and (i + 1) * size <= n:
            c = case["counters"][i]
            errc += c != (down + 1) % 256
            down = c
            i += 1
            done += 1
        same([s["down"], s["errc"]], [down, errc], "counters after %d frames numbered %s" % (i, short(case["counters"][:i][-12:])))
        same(len(s["msgs"]), done, "frames delivered after %d frames numbered %s" % (i, short(case["counters"][:i][-12:])))
    same(i, len(case["counters"]), "frames")
    rec.nontrivial(len(case["counters"]) >= 2)
    rec.label("gaps=%d" % min(errc, 5), "long" if len(case["counters"]) > 256 else "short")


@st.composite
def sequences(draw):
    c, out = draw(st.sampled_from([1, 1, 0, 2, 254, 255])), []
    for _ in range(draw(st.integers(1, 14))):
        out.append(c)
        c = (c + draw(st.sampled_from([1, 1, 1, 1, 0, 2, 255, 3, 128]))) % 256
    mt = draw(st.sampled_from([1, 4, 5]))
    return {"counters": out, "payload": draw(st.sampled_from(["2341", "20400001c0", "010203"])) if mt != 1 else "234c", "mt": mt,
            "cuts": sorted(draw(st.lists(st.integers(0, 99), max_size=4)))}


def seqs():
    yield {"counters": [i % 256 for i in range(1, 600)], "payload": "2341", "mt": 1, "cuts": []}
    yield {"counters": [i % 256 for i in range(1, 300)], "payload": "2341", "mt": 1, "cuts": [20, 40, 60, 80]}
    yield {"counters": [i % 256 for i in range(0, 1200, 3)], "payload": "ff", "mt": 4, "cuts": [50]}
    for a in range(256):
        yield {"counters": [a, (a + 1) % 256, (a + 2) % 256, a, a], "payload": "", "mt": 1, "cuts": [30]}
        yield {"counters": [1, a, (a + 1) % 256], "payload": "07", "mt": 5, "cuts": []}


FACETS = [
    Facet("sequences", numbered, cases=seqs, rule="long and wrapping sequences; every first and second counter; non-trivial: two frames"),
    Facet("numbered", numbered, sequences, quick=1200, rule="random counters with gaps and repeats, chunked; non-trivial: two frames"),
    Facet("streams", check, lambda: gen.stream("AAAALRCUTG", 8), quick=1500, rule="random noisy streams; non-trivial: two frames delivered"),
]
