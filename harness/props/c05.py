from common import *
from fractions import Fraction

MAX = 31 * 4 ** 7


def expected(v, ceil):
    v = Fraction(v)
    for e in range(8):
        if v <= 31 * 4 ** e:
            q = v / 4 ** e
            return e, (-((-q.numerator) // q.denominator) if ceil else q.numerator // q.denominator)


def value(v):
    return float(v["float"]) if isinstance(v, dict) else v


def compress(w, case, rec):
    r = w.call("compress", values=case)["items"]
    for (v, ceil), x in zip(case, r):
        n = value(v)
        what = "compressing %s%s" % (n, "" if ceil or ceil is None else " rounding down")
        if n > MAX:
            if x is None or isinstance(x, dict) and "exc" in x:
                continue
            need(x[3] >= n and x[0] <= 7 and x[1] <= 31, "%s above the maximum gives exp %d mant %d", what, x[0], x[1])
            continue
        ok(x, what)
        need(x is not None, "%s gives nothing", what)
        e, m = expected(n, ceil in (None, True))
        t = m * 4 ** e
        same(x, [e, m, t, t, e << 5 | m, "%02x" % (e << 5 | m)],
             what + " (exponent, mantissa, integer, decompressed, byte, serialised)")
        rec.label("exp=%d" % e)
        if Fraction(n) != t:
            rec.label("rounded-up" if t > n else "rounded-down")
    rec.nontrivial(any(value(v) > 31 for v, _ in case))


def compress_cases():
    vs = list(range(0, 2100))
    for e in range(8):
        for m in range(0, 32):
            vs += [m * 4 ** e + d for d in (-1, 0, 1) if m * 4 ** e + d >= 0]
            if e:
                vs += [m * 4 ** e + 4 ** e // 2]
        for d in (-2, -1, 0, 1, 2):
            vs.append(31 * 4 ** e + d)
    vs = sorted(set(vs))
    vs += [{"float": repr(31 * 4 ** e + d)} for e in range(8) for d in (-0.5, 0.0, 0.5, 0.25)]
    for ceil in (True, False, None):
        for i in range(0, len(vs), 100):
            yield [[v, ceil] for v in vs[i:i + 100]]


floats = st.builds(lambda a, k: a / 2.0 ** k, st.integers(0, 2 ** 40), st.integers(1, 30)).filter(lambda x: x <= MAX + 9).map(
    lambda x: {"float": repr(x)})
values = lambda: st.lists(st.tuples(st.one_of(
    st.integers(0, MAX), st.integers(0, 5000), st.integers(MAX - 20, MAX + 20), st.integers(MAX + 1, 2 ** 40), floats,
    st.builds(lambda e, m, d: max(0, m * 4 ** e + d), st.integers(0, 7), st.integers(0, 31), st.integers(-3, 3))),
    st.sampled_from([True, False, None])).map(list), min_size=1, max_size=25)


def byte(w, case, rec):
    items = [{"what": "CT", "hex": "%02x" % b + case["junk"], "want": ["dump", "hex", "int", "decompress"]} for b in case["b"]]
    models = [{"t": "CT", "exp": b >> 5, "mant": b & 31} for b in case["b"]]
    ps = w.call("parsemany", items=items)["items"]
    bs = w.call("buildmany", models=models, want=["hex", "dump", "int", "decompress"])["items"]
    for b, m, p, q in zip(case["b"], models, ps, bs):
        for x, how in ((ok(p, "parsing"), "parsed"), (ok(q, "building"), "built")):
            same(x["dump"], m, "%s compressed time %02x" % (how, b))
            same(x["hex"], "%02x" % b, "byte of %s compressed time" % how)
            t = (b & 31) * 4 ** (b >> 5)
            same([x["int"], x["decompress"]], [t, t], "value of %s compressed time %02x" % (how, b))
        same(p["bits"], 8, "bits read")
    rec.nontrivial()


def bytes_cases():
    for i in range(0, 256, 16):
        for j in ("", "ff"):
            yield {"b": list(range(i, i + 16)), "junk": j}


FACETS = [
    Facet("bytes", byte, cases=bytes_cases, rule="every byte"),
    Facet("limits", compress, cases=compress_cases, rule="0..2099 and every representable value and its neighbours, both roundings; "
          "non-trivial: a value over 31"),
    Facet("values", compress, values, quick=1200, rule="random integers and fractions; non-trivial: a value over 31"),
]
