from common import *

TOP = 2 ** 30 - 1


def lengths(w, case, rec):
    vs = case["v"]
    r = w.call("buildmany", models=[{"t": case["t"], "value": v} if case["t"] == "Length" else
                                    {"t": "Offset", "id": v & 255, "offset": {"t": "Length", "value": v}} for v in vs],
               want=["hex", "hex2", "dump"])
    items = []
    pre = b"" if case["t"] == "Length" else None
    for v, x in zip(vs, r["items"]):
        ok(x, "Length(%d)" % v)
        head = b"" if pre is not None else bytes([v & 255])
        want = head + ref.varlen(v)
        same(ok(x["hex"], "bytes of Length(%d)" % v), want.hex(), "bytes of %s %d" % (case["t"], v))
        same(x["hex2"], want.hex(), "bytes of %s %d, again" % (case["t"], v))
        items.append({"what": case["t"], "hex": want.hex() + case["junk"], "want": ["dump", "hex"]})
    back = w.call("parsemany", items=items)["items"]
    for v, x, y in zip(vs, r["items"], back):
        ok(y, "parsing length %d" % v)
        same(y["dump"], x["dump"], "parsed %s %d" % (case["t"], v))
        n = y["dump"] if case["t"] == "Length" else y["dump"]["offset"]
        same(n, {"t": "Length", "value": v}, "parsed value")
        same(y["bits"], len(x["hex"]) * 4, "bits of length %d" % v)
        same(y["hex"], x["hex"], "bytes of parsed length %d" % v)
    rec.nontrivial(any(v > 63 for v in vs))
    for v in vs:
        rec.label("size=%d" % len(ref.varlen(v)))


def ranges():
    for lo, hi in ((0, 20500), (2 ** 22 - 300, 2 ** 22 + 300), (TOP - 300, TOP + 1), (2 ** 24 - 100, 2 ** 24 + 100),
                   (2 ** 16 - 100, 2 ** 16 + 100)):
        for a in range(lo, hi, 250):
            yield {"t": "Length", "v": list(range(a, min(a + 250, hi))), "junk": "" if a % 500 else "ff"}


@st.composite
def randoms(draw):
    return {"t": draw(st.sampled_from(["Length", "Offset"])),
            "v": draw(st.lists(gen.lenval(), min_size=1, max_size=30)), "junk": draw(JUNK).hex()}


def encodings(w, case, rec):
    """any encoding, minimal or not"""
    items, want = [], []
    for v, n in case:
        b = ref.varlen(v, n)
        items.append({"what": "Length", "hex": b.hex() + "a5", "want": ["dump"]})
        want.append(v)
    for (v, n), x in zip(case, w.call("parsemany", items=items)["items"]):
        ok(x, "parsing %d in %d bytes" % (v, n))
        same(x["dump"], {"t": "Length", "value": v}, "length %d encoded in %d bytes" % (v, n))
        same(x["bits"], 8 * n, "bits of a length of %d bytes" % n)
    rec.nontrivial(any(len(ref.varlen(v)) < n for v, n in case))
    rec.label(*["bytes=%d" % n for _, n in case])


encs = lambda: st.lists(st.integers(1, 4).flatmap(lambda n: st.tuples(gen.bint(0, 2 ** (8 * n - 2) - 1, 63, 64), st.just(n))),
                        min_size=1, max_size=20).map(lambda l: [list(x) for x in l])


def outside(w, case, rec):
    for v in case:
        r = w.call("buildmany", models=[{"t": "Length", "value": v}], want=["hex"])["items"][0]
        refused(r, "Length(%s)" % v, value_error=True)
    # the same value through an operand and an encoding cut short
    rec.nontrivial()


outs = lambda: st.lists(st.one_of(st.integers(-2 ** 40, -1), st.integers(2 ** 30, 2 ** 64), st.sampled_from(
    [-1, -2, -64, 2 ** 30, 2 ** 30 + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 62])), min_size=1, max_size=4)


def short_enc(w, case, rec):
    b = bytes.fromhex(case)
    decodes(w, "Length", b, lambda d: d.length())
    rec.nontrivial(len(b) >= 2)
    rec.label("rejected" if len(b) < 1 + (b[0] >> 6 if b else 0) else "accepted")


raws = lambda: st.binary(max_size=6).map(lambda b: b.hex())

def equality(w, case, rec):
    a, b = case
    r = ok(w.call("eq", a={"t": "Length", "value": a}, b=b), "comparing")
    e = (b == a) if isinstance(b, int) else isinstance(b, dict) and b.get("value") == a
    same([bool(r[k]) for k in ("eq", "ne", "eq_r", "ne_r")], [e, not e, e, not e], "comparison (==, != both ways) of Length(%d) and %s" % (a, b))
    rec.nontrivial()
    rec.label("equal" if e else "different", "int" if isinstance(b, int) else "Length" if b else "other")


def compared():
    for a in (0, 1, 2, 63, 64, 65, 255, 256, 16383, 16384, 2 ** 22 - 1, 2 ** 22, TOP):
        for v in sorted({a, 0, 1, a ^ 1, a ^ 64, a ^ 256, a % 256, a % 64, TOP, a + 1, max(a - 1, 0)}):
            if v <= TOP:
                yield [a, {"t": "Length", "value": v}]
            yield [a, v]
        for o in (None, {"str": str(a)}, {"tuple": []}, []):
            yield [a, o]


equals = lambda: st.tuples(gen.lenval(), gen.lenval()).flatmap(lambda v: st.sampled_from([[v[0], v[1]], [v[0], v[0]], [v[0], {"t": "Length", "value": v[0]}], [v[0], {"t": "Length", "value": v[1]}]]))


FACETS = [
    Facet("equality", equality, equals, cases=compared, quick=300, rule="lengths against lengths, integers and other things"),
    Facet("ranges", lengths, cases=ranges, rule="0..20499 and around each encoding limit, in blocks; non-trivial: a value over 63"),
    Facet("values", lengths, randoms, quick=700, rule="lists of random values, alone and within offsets; non-trivial: a value over 63"),
    Facet("encodings", encodings, encs, quick=400, rule="encodings of any width; non-trivial: one is not minimal"),
    Facet("outside", outside, outs, quick=400, rule="values below 0 or above 2^30-1"),
    Facet("bytes", short_enc, raws, quick=500, rule="random bytes; non-trivial: at least two"),
]
