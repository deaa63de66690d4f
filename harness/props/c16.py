from common import *

KINDS = ["bytes", "list", "tuple", "ba"]


def crc(w, case, rec):
    items = [[h, k] for h in case for k in KINDS]
    for (h, k), r in zip(items, w.call("crc", items=items)["items"]):
        c = ref.crcf(bytes.fromhex(h))
        same(ok(r, "checksum of %s as %s" % (short(h, 100), k)), [c >> 8, c & 255], "checksum of %s as %s" % (short(h, 200), k))
    rec.nontrivial(any(len(h) > 2 for h in case))
    rec.label("long" if any(len(h) > 200 for h in case) else "short")


def crc_cases():
    yield ["", "313233343536373839", "00", "ff", "ffff", "0000"]
    yield [bytes(gen.pattern(n, 3, 11)).hex() for n in (255, 256, 257, 4096)]
    yield [bytes(gen.pattern(65536, 1, 7)).hex()]
    for i in range(0, 256, 16):
        yield ["%02x" % x for x in range(i, i + 16)]
    for i in range(0, 40):
        yield ["00" * i, "ff" * i, ("00" * i) + "01", "80" + "00" * i]


byts = lambda: st.lists(st.one_of(st.binary(max_size=30), st.binary(min_size=1, max_size=300), gen.payload(300).map(bytes)), min_size=1,
                        max_size=6).map(lambda l: [b.hex() for b in l])


def damage(w, case, rec):
    """frames with flipped bits in payload or checksum, fed one after the other; none is delivered"""
    p = bytes.fromhex(case["payload"])
    f = ref.serial_frame(p, 1, case["mt"])
    body = int.from_bytes(f[5:], "big")
    nb = 8 * (len(f) - 5)
    ops, want = [], []
    for m in masks(case, nb):
        g = f[:5] + (body ^ m).to_bytes(nb // 8, "big")
        ops.append(["feed", g.hex()])
        want.append(g)
    skip = case["skip"]
    if b"\xc0" not in b"".join(g[5:] for g in want):
        for g, s in zip(want, run_serial(w, ops, skip)):
            need(not s["msgs"], "corrupted frame %s delivered (sent %s): %s", g.hex(), f.hex(), short(s["msgs"], 200))
            same(s["left"], "", "bytes kept after corrupted frame %s" % g.hex())
            need(s["skipped"], "corrupted frame %s not reported", g.hex())
    else:
        rec.label("contains-sync")
        for o, g in zip(ops, want):
            s = run_serial(w, [o], skip)
            agree(s, [g], skip)
            need(not any(x["parsed"] == 8 * len(g) for x in s), "corrupted frame %s delivered", g.hex())
    rec.nontrivial(len(ops) > 0)
    rec.label(case["kind"])


def masks(case, nb):
    k = case["kind"]
    if k == "one":
        return [1 << i for i in range(nb)]
    if k == "two":
        a = case["a"] % nb
        return [1 << a | 1 << i for i in range(nb) if i != a]
    n = case["burst"] | 1
    return [n << i for i in range(nb) if n << i < 1 << nb]


def damage_cases():
    for p in ("", "2341", "20400003010203", "00" * 12, "ff" * 20, bytes(gen.pattern(120, 1, 1)).hex()):
        for mt, skip in ((1, True), (1, False), (4, False), (5, False)):
            if mt == 5 and not p or mt == 1 and not skip and p not in ("", "2341", "20400003010203"):
                continue
            yield {"payload": p, "mt": mt, "skip": skip, "kind": "one"}
            if len(p) < 30 and (mt == 4 or mt == 1 and len(p) == 4):
                for a in range(0, 8 * (len(p) // 2 + 2), 3):
                    yield {"payload": p, "mt": mt, "skip": skip, "kind": "two", "a": a}
    for b in [1, 3, 5, 0x8001, 0x8005, 0xFFFF, 0x1021, 0x8811, 0x0811, 0x0409, 0xC003, 0xA001]:
        yield {"payload": bytes(gen.pattern(30, 2, 3)).hex(), "mt": 1, "skip": True, "kind": "burst", "burst": b}


damages = lambda: st.fixed_dictionaries({
    "payload": st.one_of(st.binary(max_size=12), gen.alp_payload(40), st.binary(max_size=40)).map(lambda b: b.hex()), "mt": st.sampled_from([1, 4, 5]),
    "skip": st.just(True), "kind": st.sampled_from(["one", "two", "burst", "burst"]), "a": st.integers(0, 4000), "burst": st.integers(1, 0xFFFF)})

FACETS = [
    Facet("fixed", crc, cases=crc_cases, rule="check value, single bytes, runs of zeros and ones, 64 KiB; non-trivial: two bytes or more"),
    Facet("bytes", crc, byts, quick=1500, rule="random bytes in every sequence type; non-trivial: two bytes or more"),
    Facet("flips", damage, cases=damage_cases, rule="every one and two bit error of several frames"),
    Facet("damage", damage, damages, quick=400, rule="random frames with all one-bit errors, all two-bit errors through one bit, or a burst at every position"),
]
