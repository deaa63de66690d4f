from common import *
from props import c18


class World:
    """reference radio frame parser, for frames known beforehand"""
    def __init__(self, fg, items):
        self.fg, self.todo, self.have = fg, list(items), 0

    def feed(self, f):
        self.have += len(f)
        exp, errs, n = [], [], 0
        while self.todo and self.have >= len(self.todo[0][1]) and not exp:
            k, b = self.todo.pop(0)
            self.have -= len(b)
            if k == "bad":
                errs.append(len(b))
            else:
                d = ref.Dec(b)
                exp = [d.fg_frame() if self.fg else d.bg_frame()]
                n = len(b)
        return {"frames": exp, "buffer": 8 * self.have, "parsed": 8 * n, "skipped": errs}


def check(w, case, rec):
    items = [(k, bytes.fromhex(h)) for k, h in case["items"]]
    feeds = [bytes.fromhex(h) for h in case["feeds"]]
    if b"".join(b for _, b in items) != b"".join(feeds):
        raise Discard()
    fg = case["type"] == "fg"
    steps = w.call("dll", type=case["type"], feeds=case["feeds"], kind=case["kind"])["steps"]
    todo, have, delivered, errors = list(items), 0, 0, 0
    for i, (f, s) in enumerate(zip(feeds, steps)):
        at = "call %d (%s) of %s" % (i, f.hex(), short([[k, b.hex()] for k, b in items], 500))
        ok(s, at)
        have += len(f)
        exp, nerr = [], 0
        while todo and have >= len(todo[0][1]) and not exp:
            k, b = todo.pop(0)
            have -= len(b)
            if k == "bad":
                nerr += 1
            else:
                d = ref.Dec(b)
                exp = [d.fg_frame() if fg else d.bg_frame()]
                n = len(b)
        same([x for x in s["frames"] if x is not None], exp, "frames returned by " + at)
        same(s["buffer"], 8 * have, "bits kept after " + at)
        same(s["parsed"], 8 * n if exp else 0, "bits delivered by " + at)
        same(s["nerr"], nerr, "errors reported by " + at)
        delivered += len(exp)
        errors += nerr
    rec.nontrivial(delivered >= 2 or errors and delivered)
    rec.label(case["type"], "delivered=%d" % min(delivered, 5), "errors=%d" % min(errors, 3), "kept" if have else "nothing-kept")


@st.composite
def bad_frame(draw):
    f = draw(gen.fg_frame(limit=80))
    b = bytearray(enc(f))
    at = 3 + len(f["target_address"])              # network control
    tp = at + 2 + len(f["d7anp_frame"]["origin_access_id"])
    k = draw(st.integers(0, 4))
    if k == 0:
        b[at] |= 0x40
    elif k == 1:
        b[at] = b[at] & 0xF0 | draw(st.integers(1, 15))
    elif k == 2:
        b[tp] |= 2
    elif k == 3:
        b[tp] |= 4
        p = len(b) - 2 - len(enc(f["d7anp_frame"]["d7atp_frame"]["alp_command"]))
        b[p:p] = draw(st.binary(min_size=2, max_size=2))
        b[0] += 2
    else:
        b[len(b) - 2:len(b) - 2] = bytes([draw(st.sampled_from([0, 5, 10, 63, 0x85]))])
        b[0] += 1
    return bytes(b)


@st.composite
def histories(draw):
    t = draw(st.sampled_from(["fg", "fg", "fg", "bg"]))
    items = []
    for _ in range(draw(st.integers(1, 6))):
        if t == "bg":
            items.append(("ok", enc(draw(gen.bg_frame))))
        elif draw(st.integers(0, 3)) == 0:
            items.append(("bad", draw(bad_frame())))
        else:
            items.append(("ok", enc(draw(gen.fg_frame(limit=draw(st.sampled_from([50, 90, 250])))))))
    b = b"".join(x for _, x in items)
    cs = draw(gen.cuts(len(b)))
    # an undecodable frame is received whole
    p, inside = 0, set()
    for k, x in items:
        if k == "bad":
            inside.update(range(p + 1, p + len(x)))
        p += len(x)
    cs = [c for c in cs if c not in inside]
    feeds = gen.split(b, cs) + [b""] * draw(st.integers(0, len(items)))
    return {"type": t, "items": [[k, x.hex()] for k, x in items], "feeds": [x.hex() for x in feeds], "kind": draw(st.sampled_from(["ba", "list"]))}


def splits():
    """two frames split at every position, and byte by byte"""
    a, b = enc(c18.frame(acts=[c18.RD], flags=0xB9)), enc(c18.frame(tt="UID", ot="NOID", acts=[c18.wr(70)]))
    bad = enc(c18.frame(acts=[c18.RD], hop=True))
    g = bytes.fromhex("0541123407ff"), bytes.fromhex("ffff00060001")
    for t, items in (("fg", [("ok", a), ("ok", b)]), ("fg", [("bad", bad), ("ok", a), ("ok", a)]), ("bg", [("ok", g[0]), ("ok", g[1])])):
        x = b"".join(y for _, y in items)
        js = [[k, y.hex()] for k, y in items]
        lo = len(items[0][1]) if items[0][0] == "bad" else 0
        for i in range(lo, len(x) + 1):
            yield {"type": t, "items": js, "feeds": [x[:i].hex(), x[i:].hex(), "", ""], "kind": "ba"}
        yield {"type": t, "items": js, "feeds": [x[:lo].hex()] + [x[i:i + 1].hex() for i in range(lo, len(x))], "kind": "list"}
        yield {"type": t, "items": js * 4, "feeds": [(x * 4).hex()] + [""] * 14, "kind": "ba"}


def soak():
    """hundreds of frames, in one call and in many"""
    a, b = enc(c18.frame(acts=[c18.RD], flags=0xB9)), enc(c18.frame(tt="UID", ot="NOID", acts=[c18.wr(70)]))
    bad = enc(c18.frame(acts=[c18.RD], hop=True))
    g = bytes.fromhex("0541123407ff"), bytes.fromhex("ffff00060001")
    for t, items in (("fg", [("ok", a)] * 300), ("fg", ([("ok", a)] * 3 + [("bad", bad)] + [("ok", b)]) * 30), ("bg", [("ok", g[0]), ("ok", g[1])] * 150)):
        x = b"".join(y for _, y in items)
        js = [[k, y.hex()] for k, y in items]
        yield {"type": t, "items": js, "feeds": [x.hex()] + [""] * len(items), "kind": "ba"}
        yield {"type": t, "items": js, "feeds": [y.hex() for _, y in items], "kind": "list"}


FACETS = [
    Facet("soak", check, cases=soak, rule="hundreds of frames over hundreds of calls"),
    Facet("splits", check, cases=splits, rule="fixed frames split at every position; non-trivial: two frames delivered, or an error and a frame"),
    Facet("histories", check, histories, quick=1600, rule="random frames over several calls, also empty ones"),
]
