from common import *


def roundtrips(w, case, rec):
    q = case["q"]
    roundtrip(w, q, junk=bytes.fromhex(case["junk"]))
    a = {"t": "RegularAction", "group": case["group"], "resp": case["resp"], "operation": {"t": "BreakQuery", "operand": q}}
    roundtrip_action(w, a, case["tail"])
    rec.nontrivial()
    rec.label(q["params"]["comp_type"]["n"], "signed" if q["params"]["signed_data_type"] else "unsigned", "value=%d" % min(len(q["compare_value"]), 9))


TAIL = {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": "ReadFileData", "operand": {
    "t": "DataRequest", "length": {"t": "Length", "value": 8}, "offset": {"t": "Offset", "id": 0x42, "offset": {"t": "Length", "value": 64}}}}}


def roundtrip_action(w, a, tail):
    want = enc(a)
    r = build(w, a, ["hex", "dump", "str"])
    same(r["hex"], want.hex(), "bytes of the break query")
    same(r["dump"], a, "fields of the break query")
    t = enc(TAIL) if tail else b""
    p = ok(parse(w, "alp", want + t, length=len(want + t), want=("dump", "acthex")), "parsing %s" % want.hex())
    same(p["dump"]["actions"], [a] + ([TAIL] if tail else []), "parsed break query %s" % want.hex())
    same(p["bits"], 8 * len(want + t), "bits read")
    same(p["acthex"][0], want.hex(), "bytes of the parsed break query")


queries = lambda: st.fixed_dictionaries({"q": gen.query, "group": gen.BOOL, "resp": gen.BOOL, "tail": gen.BOOL, "junk": JUNK.map(lambda b: b.hex())})


def fields():
    for c in sorted(ref.ENUM["ArithComparisonType"]):
        for s in (False, True):
            for n in (0, 1, 2, 4, 8, 63, 64, 255, 256):
                yield {"q": gen.query_of(gen.pattern(n, 250, 7), {"t": "ArithQueryParams", "signed_data_type": s, "comp_type": E("ArithComparisonType", c)},
                                         {"t": "Offset", "id": n & 255, "offset": {"t": "Length", "value": n * 70}}),
                       "group": s, "resp": n == 8, "tail": n < 4, "junk": ""}


def raw(w, case, rec):
    b = bytes.fromhex(case)
    m = decodes(w, "alp", b, lambda d: d.command(len(b)), length=len(b))
    decodes(w, "QueryOperand", b[1:], lambda d: d.query())
    rec.nontrivial()
    rec.label("accepted" if m is not None else "rejected")


def firsts():
    for h in (0x09, 0x49, 0x89, 0xC9):
        for i in range(256):
            for t in ("00400a", "01054000", "4001074040ff", "0201", ""):
                yield "%02x%02x%s" % (h, i, t)


raws = lambda: st.one_of(
    st.binary(max_size=12).map(lambda b: "09" + b.hex()),
    st.builds(lambda q, k: ("09" + enc(q).hex())[:-2 * k or None], gen.query, st.integers(0, 3)),
    st.builds(lambda q, i, v: (lambda b: (b[:i % len(b)] + bytes([v]) + b[i % len(b) + 1:]).hex())(b"\x09" + enc(q)), gen.query,
              st.integers(0, 10), gen.BYTE))

FACETS = [
    Facet("first-bytes", raw, cases=firsts, rule="every first byte of a query with several tails"),
    Facet("fields", roundtrips, cases=fields, rule="every operator and signedness, value sizes up to 256"),
    Facet("queries", roundtrips, queries, quick=800, rule="random queries, alone and as actions"),
    Facet("bytes", raw, raws, quick=900, rule="random, truncated and damaged queries"),
]
