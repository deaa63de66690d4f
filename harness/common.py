from engine import Facet, Violation, Discard, need, same, short
from hypothesis import strategies as st
import gen, ref
from ref import enc, shown, strip, E


def ok(r, what):
    """the reply of something that must succeed"""
    if isinstance(r, dict) and "exc" in r:
        raise Violation("%s raised %s: %s" % (what, r["exc"], short(r["msg"], 200)))
    return r


def refused(r, what, value_error=False):
    if not (isinstance(r, dict) and "exc" in r):
        raise Violation("%s was accepted: %s" % (what, short(r, 300)))
    need(r["error"], "%s ended with %s", what, r["exc"])
    if value_error:
        need(r["value_error"], "%s raised %s instead of ValueError: %s", what, r["exc"], r["msg"])


def build(w, model, want):
    r = ok(w.call("build", model=model, want=want), "building %s" % short(model, 200))
    for k in want:
        if k in r:
            ok(r[k], "%s of %s" % (k, short(model, 200)))
    return r


def parse(w, what, data, length=None, want=("dump",), skip=0):
    return w.call("parse", what=what, hex=data.hex(), length=length, want=list(want), skip=skip)


def roundtrip(w, model, what=None, junk=b"", expect=None, consumed=None):
    """build the model, compare bytes and attributes, parse the bytes (followed by junk), compare again"""
    want = enc(model)
    what = what or model["t"]
    r = build(w, model, ["hex", "hex2", "dump", "str", "hex3"])
    for k in ("hex", "hex2", "hex3"):
        same(r[k], want.hex(), "bytes of %s (%s)" % (model["t"], k))
    expect = shown(model) if expect is None else expect
    same(r["dump"], expect, "fields of the built %s" % model["t"])
    p = ok(parse(w, what, want + junk, want=("dump", "hex")), "parsing the bytes of %s" % short(model, 200))
    same(ok(p["dump"], "reading"), expect, "parsed %s" % model["t"])
    same(p["bits"], 8 * (len(want) if consumed is None else consumed), "bits consumed for %s" % model["t"])
    same(ok(p["hex"], "serialising"), want.hex(), "bytes of the parsed %s" % model["t"])
    return r


def decodes(w, what, data, decode, length=None):
    """the code agrees with the reference decoder on arbitrary bytes; returns the model or None when rejected"""
    d = ref.Dec(data)
    try:
        m = decode(d)
    except ref.Unspec:
        raise Discard()
    except ref.Reject as e:
        refused(parse(w, what, data, length=length), "parsing %s from %s, which is not valid (%s)," % (what, data.hex(), e))
        return None
    r = ok(parse(w, what, data, length=length), "parsing %s from %s" % (what, data.hex()))
    same(ok(r["dump"], "reading"), m, "%s parsed from %s" % (what, data.hex()))
    same(r["bits"], 8 * d.p, "bits consumed for %s" % what)
    return m


JUNK = st.binary(max_size=3)


def hexes(s):
    return s.map(lambda b: bytes(b).hex())


def run_serial(w, ops, skip=False):
    return [ok(s, "serial parser, step %d (%s)" % (i, short(o, 200))) for i, (o, s) in
            enumerate(zip(ops, w.call("serial", ops=ops, skip=skip)["steps"]))]


def agree(steps, chunks, skip, what=""):
    """the parser did what the reference receiver does, chunk by chunk; returns the receiver and its results"""
    rc = ref.Receiver(skip)
    out = []
    try:
        for c in chunks:
            out.append(rc.feed(c))
    except ref.Unspec:
        raise Discard()
    for i, (s, e) in enumerate(zip(steps, out)):
        at = "%schunk %d (%s): " % (what, i, short(chunks[i].hex(), 200))
        same(s["nm"], [len(e["msgs"])] * 2, at + "number of message types and messages")
        same(s["msgs"], e["msgs"], at + "messages")
        for k in ("skipped", "parsed", "buffer", "left", "down", "errc"):
            same(s[k], e[k], at + {"down": "receive counter", "errc": "error counter", "left": "bytes kept", "parsed": "bits delivered",
                                   "buffer": "bits kept", "skipped": "bytes skipped"}[k])
    return rc, out
