from common import *

PERM = ["encrypted", "executeable", "user_readable", "user_writeable", "user_executeable", "guest_readable", "guest_writeable", "guest_executeable"]


def perms(b):
    return dict({"t": "FilePermissions"}, **{n: bool(b >> (7 - i) & 1) for i, n in enumerate(PERM)})


def props(en=False, cond="READ", sc="PERMANENT"):
    return {"t": "FileProperties", "act_enabled": en, "act_condition": E("ActionCondition", cond), "storage_class": E("StorageClass", sc)}


def head(p=0, pr=None, a=1, i=2, size=3, alloc=4):
    return {"t": "FileHeader", "permissions": perms(p), "properties": pr or props(), "alp_command_file_id": a, "interface_file_id": i,
            "file_size": size, "allocated_size": alloc}


def check(w, case, rec):
    m = case["m"]
    roundtrip(w, m, junk=bytes.fromhex(case["junk"]))
    if m["t"] == "FileHeader":
        same(len(enc(m)), 12, "reference header length")
        op = {"t": "FileHeaderOperand", "file_id": 77, "file_header": m}
        for n in ("ReturnFileHeader", "CreateNewFile"):
            c = {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": n, "operand": op}}
            r = ok(parse(w, "alp", enc(c), length=14), "parsing %s" % enc(c).hex())
            same(ok(r["dump"], "reading")["actions"], [c], "header inside %s" % n)
    rec.nontrivial()
    rec.label(m["t"])


def every():
    for b in range(256):
        yield {"m": perms(b), "junk": ""}
        yield {"m": head(b, a=b, i=255 - b, size=b << 24 | b, alloc=b << 16 | 1), "junk": "ff"}
    for en in (False, True):
        for c in sorted(ref.ENUM["ActionCondition"]):
            for s in sorted(ref.ENUM["StorageClass"]):
                yield {"m": props(en, c, s), "junk": ""}
                yield {"m": head(0x35, props(en, c, s), size=0xFFFFFFFF, alloc=0x80000000), "junk": ""}
    for k in range(32):
        yield {"m": head(size=1 << k, alloc=(1 << 32) - 1 - (1 << k)), "junk": ""}


def arbitrary(w, case, rec):
    b = bytes.fromhex(case)
    m = decodes(w, "FileHeader", b, lambda d: d.header())
    if len(b) == 12 and m is not None and not b[1] & 0x0C:
        same(ok(ok(parse(w, "FileHeader", b, want=("hex",)), "parsing")["hex"], "bytes"), b.hex(), "bytes of the header parsed from %s" % b.hex())
    rec.nontrivial(len(b) >= 12)
    rec.label("accepted" if m else "rejected")


def bytes_cases():
    b = enc(head(0x2D, props(True, "WRITE"), 9, 8, 0x01020304, 0x05060708))
    for v in range(256):
        yield (b[:1] + bytes([v]) + b[2:]).hex()
    for k in range(13):
        yield b[:k].hex()


def equal(w, case, rec):
    a, b = case["a"], case["b"]
    r = ok(w.call("eq", a=a, b=b), "comparing")
    e = a == b
    same([bool(r[k]) for k in ("eq", "ne", "eq_r", "ne_r")], [e, not e, e, not e], "comparison (==, != both ways) of %s and %s" % (short(a, 300), short(b, 300)))
    rec.nontrivial()
    rec.label("equal" if e else "different")


def variants():
    a = head(0x35, props(True, "WRITE", "VOLATILE"), 9, 8, 100, 200)
    yield {"a": a, "b": head(0x35, props(True, "WRITE", "VOLATILE"), 9, 8, 100, 200)}
    for i in range(8):
        yield {"a": a, "b": dict(a, permissions=perms(0x35 ^ 1 << i))}
        yield {"a": a["permissions"], "b": perms(0x35 ^ 1 << i)}
    for p in (props(False, "WRITE", "VOLATILE"), props(True, "READ", "VOLATILE"), props(True, "WRITE", "PERMANENT")):
        yield {"a": a, "b": dict(a, properties=p)}
        yield {"a": a["properties"], "b": p}
    for k in ("alp_command_file_id", "interface_file_id", "file_size", "allocated_size"):
        yield {"a": a, "b": dict(a, **{k: a[k] + 1})}
    for o in (None, 5, {"str": "x"}, a["permissions"], a["properties"], {"tuple": []}):
        yield {"a": a, "b": o}
    for p in (a["permissions"], a["properties"]):
        for o in (None, 0, {"str": ""}):
            yield {"a": p, "b": o}


@st.composite
def pairs(draw):
    a = draw(st.one_of(gen.header, gen.header, gen.permissions, gen.properties))
    b = draw({"FileHeader": gen.header, "FilePermissions": gen.permissions, "FileProperties": gen.properties}[a["t"]])
    k = draw(st.sampled_from(sorted(set(a) - {"t"})))
    return {"a": a, "b": draw(st.sampled_from([a, dict(a, **{k: b[k]}), dict(b, **{k: a[k]}), b]))}


FACETS = [
    Facet("every", check, cases=every, rule="every permission byte, every property combination, single bits of the sizes"),
    Facet("headers", check, lambda: st.fixed_dictionaries({"m": gen.header, "junk": JUNK.map(lambda b: b.hex())}), quick=1500, rule="random headers"),
    Facet("bytes", arbitrary, lambda: hexes(st.one_of(st.binary(min_size=12, max_size=12), st.binary(min_size=12, max_size=14), st.binary(max_size=11))),
          cases=bytes_cases, quick=2000, rule="at least 12 bytes"),
    Facet("equality", equal, pairs, cases=variants, quick=1500, rule="pairs differing in at most a few fields"),
]
