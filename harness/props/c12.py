from common import *


def check(w, case, rec):
    b, cs = gen.chunks_of(case)
    kind = case.get("kind", "ba")
    whole = run_serial(w, [["feed", b.hex()]], case["skip"])[0]
    parts = run_serial(w, [["feed", c.hex(), kind] for c in cs], case["skip"])
    what = "stream %s in chunks of %s bytes: " % (short(b.hex(), 400), short([len(c) for c in cs], 200))
    same([m for s in parts for m in s["msgs"]], whole["msgs"], what + "messages, against those of the stream at once")
    last = parts[-1]
    for k, n in (("left", "bytes kept"), ("down", "receive counter"), ("errc", "error counter"), ("buffer", "bits kept")):
        same(last[k], whole[k], what + n)
    same(sum(sum(s["skipped"]) for s in parts), sum(whole["skipped"]), what + "bytes skipped")
    same(sum(s["parsed"] for s in parts), whole["parsed"], what + "bits delivered")
    agree(parts, cs, case["skip"], "in chunks, ")
    agree([whole], [b], case["skip"], "at once, ")
    rec.nontrivial(len([c for c in cs if c]) >= 2 and (whole["msgs"] or whole["skipped"]))
    rec.label("chunks=%s" % (len(cs) if len(cs) < 6 else "many"), "empty-chunks" if b"" in cs else "no-empty-chunk",
              "delivered=%d" % min(len(whole["msgs"]), 4), "errors" if whole["skipped"] else "clean")


streams = lambda: st.builds(lambda s, k: dict(s, kind=k), gen.stream(), st.sampled_from(["ba", "ba", "bytes", "list"]))


def every_split():
    """two frames and garbage, split at every single position, and byte by byte"""
    f1, f2 = ref.serial_frame(bytes.fromhex("234520400003c00001"), 1), ref.serial_frame(b"\xc0log\x00", 2, 4)
    bad = ref.serial_frame(b"\x05\xc0\x01", 3)
    r = ref.serial_frame(b"\x07", 4, 5)
    for items in ([f1, f2, r], [b"\x01\xc0\x01", f1, bad, f2, r], [f1[:9], f2, r, f1]):
        n = sum(map(len, items))
        js = [["x", i.hex()] for i in items]
        for skip in (False, True):
            for i in range(n + 1):
                yield {"items": js, "cuts": [i], "skip": skip}
            yield {"items": js, "cuts": list(range(1, n)), "skip": skip}
            yield {"items": js, "cuts": [x for i in range(1, n) for x in (i, i)], "skip": skip}
            for i in range(0, n, 3):
                yield {"items": js, "cuts": [i, min(n, i + 5), min(n, i + 8)], "skip": skip}


def soak():
    """long streams: many frames, much garbage, many sync bytes, in one chunk and in many"""
    fs = [ref.serial_frame(bytes([0x20, 0x40, 0, 1, i % 256]) if i % 7 else b"\x05", i % 256) if i % 5 else ref.serial_frame(b"log %d" % i, i % 256, 4) for i in range(700)]
    noise = bytes((i * 73 + i // 5) % 256 for i in range(4000)).replace(b"\xc0", b"\xc1")
    for items in (fs, [noise] + fs[:3] + [noise] + fs[3:20], [b"\xc0" * 600] + fs[:9] + [b"\xc0" * 600] + fs[9:12],
                  [b"\xc0\0" * 300] + fs[:150], [f[:-1] for f in fs[:200]] + fs[200:320]):
        js = [["x", i.hex()] for i in items]
        n = sum(map(len, items))
        yield {"items": js, "cuts": [n // 2], "skip": False, "kind": "ba"}
        yield {"items": js, "cuts": list(range(64, n, 64)), "skip": True, "kind": "bytes"}
        yield {"items": js, "cuts": list(range(1000, n, 1000)), "skip": False, "kind": "list"}


FACETS = [
    Facet("soak", check, cases=soak, rule="streams of several thousand bytes, in two, in many and in long chunks"),
    Facet("every-split", check, cases=every_split, rule="fixed streams split at every position"),
    Facet("streams", check, streams, quick=2200,
          rule="random streams of valid, damaged and truncated frames and garbage; non-trivial: two or more chunks and something delivered or skipped"),
]
