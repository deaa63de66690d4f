from common import *
import props.c29 as c29
import props.c37 as c37

ENUM = dict(ref.ENUM, MessageType=dict(ALP_DATA=1, PING_REQUEST=2, PING_RESPONSE=3, LOGGING=4, REBOOTED=5), CsmaCaMode=dict(UNC=0, AIND=1, RAIND=2, RIGD=3))
MODE = {"ENGINEERING_MODE_MODE_" + n: n for n in ("OFF", "CONT_TX", "TRANSIENT_TX", "PER_RX", "PER_TX")}
FROM = {("EngineeringModeMode", "from_string"): MODE, ("ChannelBand", "from_string"): {"BAND_433": "433", "BAND_868": "868", "BAND_915": "915"},
        ("ChannelClass", "from_char"): {"LO_RATE": "L", "LORA": "R", "NORMAL_RATE": "N", "HI_RATE": "H"},
        ("ChannelCoding", "from_char"): {"PN9": "P", "FEC_PN9": "F", "CW": "C"}}
TO = [("EngineeringModeMode", "str", MODE), ("ChannelClass", "to_char", FROM["ChannelClass", "from_char"]), ("ChannelCoding", "to_char", FROM["ChannelCoding", "from_char"]),
      ("Bandwidth", "to_string", {"kHz25": "kHz25", "kHz200": "kHz200"})]


def names(w, case, rec):
    """case: [enumeration, member, method, arguments, expected: a value, or null for refused]"""
    r = w.call("names", items=[c[:4] for c in case])["items"]
    for c, x in zip(case, r):
        what = "%s.%s(%s) of %s" % (c[0], c[2], ", ".join(map(str, c[3])), c[1])
        if c[4] is None:
            refused(x, what)
        else:
            same(ok(x, what)["v"], c[4], what)
    rec.nontrivial()
    rec.label(*sorted({c[0] + "." + c[2] for c in case}))


def tables():
    for (e, f), m in FROM.items():
        yield [[e, None, f, [{"str": t}], E(e, n)] for n, t in m.items()] + [[e, None, f, [{"uni": t}], E(e, n)] for n, t in m.items()]
        out = [t + x for t in m.values() for x in (" ", "X", "0", t, "\n")] + ["", " ", "0", "None", "x"] + sorted(m) + \
              [t for (g, h), o in FROM.items() for t in o.values() if t not in m.values()]
        yield [[e, None, f, [{"str": t}], None] for t in out if t not in m.values()] + [[e, None, f, [v], None] for v in (None, 0, 1, [], E(e, sorted(m)[0]))]
    for e, f, m in TO:
        yield [[e, n, f, [], {"str": t}] for n, t in m.items()]
    for e, m in sorted(ENUM.items()):
        yield [[e, None, "value", [v], E(e, n)] for n, v in m.items()]
        yield [[e, None, "value", [v], None] for v in range(-1, 260) if v not in m.values()]


@st.composite
def texts(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        (e, f), m = draw(st.sampled_from(sorted(FROM.items())))
        t = draw(st.one_of(st.text("LRNHPFCOTX_348691 5", max_size=4), st.text(st.characters(min_codepoint=1, max_codepoint=126), max_size=9),
                           st.tuples(st.sampled_from(sorted(m.values())), st.text("LRNHPFC_X 0", max_size=2), gen.BOOL).map(lambda x: x[1] + x[0] if x[2] else x[0] + x[1])))
        k = [n for n, v in m.items() if v == t]
        out.append([e, None, f, [{"str": t}], E(e, k[0]) if k else None])
    return out


# ---------------------------------------------------------------- attributes

IDLEN = dict(NBID=1, NOID=0, VID=2, UID=8)
FILE_CLASSES = sorted(gen.FILES)


def expected(m):
    """[path, value] for what follows from the fields"""
    t, out = m["t"], []
    if t in ("RegularAction", "ForwardAction", "IndirectForwardAction", "TagRequestAction", "TagResponseAction", "StatusAction"):
        o = m["operation"]
        out += [[["op"], ref.OPCODES[o["t"]]], [["operation", "op"], ref.OPCODES[o["t"]]]]
        if o["t"] != "NoOperation":
            out.append([["operand"], shown(o["operand"])])
    elif t == "Addressee":
        out.append([["id_length"], IDLEN[m["id_type"]["n"]]])
    elif t in gen.FILES:
        out.append([["name"], {"str": t}])
        if t == "FirmwareVersionFile":
            out += [[["d7ap_version"], {"str": "%d.%d" % (m["d7a_protocol_version_major"], m["d7a_protocol_version_minor"])}],
                    [["filesystem_version"], {"str": "%d.%d" % (m["filesystem_version_major"], m["filesystem_version_minor"])}]]
        i = gen.FILE_ID[t] + (m["access_specifier"] if t == "AccessProfileFile" else 0)
        out += [[["id"], i], [["length"], ref.SYS[i][1]]]
    return out


def decodable(b):
    try:
        return len(ref.decode_command(b)["actions"]) == 1
    except (ref.Reject, ref.Unspec):
        return False


def attributes(w, case, rec):
    """case: [model, parsed or built]"""
    items, exp = [], []
    for m, parsed in case:
        e = expected(m)
        exp.append((m, parsed, e))
        it = {"what": m["t"], "paths": [p for p, _ in e]}
        if parsed and m["t"] in ("Addressee",) + tuple(x for x in FILE_CLASSES if x != "AccessProfileFile"):
            it["hex"] = enc(m).hex()
        elif parsed and m["t"].endswith("Action") and m["t"] not in ("TagRequestAction", "TagResponseAction", "StatusAction") and decodable(enc(m)):
            it.update(what="alp", hex=enc(m).hex(), paths=[["actions", 0] + p for p in it["paths"]])
        else:
            it["model"] = m
        items.append(it)
    r = w.call("derived", items=items)["items"]
    for (m, parsed, e), x in zip(exp, r):
        what = "%s%s" % (short(m, 300), " (parsed)" if parsed else "")
        ok(x, what)
        for (p, v), g in zip(e, x["v"]):
            same(ok(g, "%s of %s" % (".".join(p), what))["v"], v, "%s of %s" % (".".join(p), what))
        if m["t"] == "Addressee":
            same(x["len"], IDLEN[m["id_type"]["n"]] + 2, "bytes of " + what)
    rec.nontrivial()
    rec.label(*sorted({m["t"] for m, _ in case}))


def acts():
    for t in sorted(c29.FIELDS):
        if t in c37.MODELS and expected_for(t):
            for p in (False, True):
                yield [[c29.example(t), p]]
    for n in sorted(ref.OPCODES):
        o = {"t": "NoOperation", "operand": None} if n == "NoOperation" else c29.example(n) if n in c29.FIELDS else None
        if o and n not in ("Forward", "IndirectForward", "TagRequest", "TagResponse", "InterfaceStatus"):
            yield [[{"t": "RegularAction", "group": g, "resp": r, "operation": o}, p] for g in (False, True) for r in (False, True) for p in (False, True)]
    for v in range(256):
        yield [[{"t": "FirmwareVersionFile", "d7a_protocol_version_major": v, "d7a_protocol_version_minor": 255 - v, "filesystem_version_major": v ^ 85,
                 "filesystem_version_minor": v // 2, "application_name": {"str": "abcdef"}, "git_sha1": {"str": "1234567"}}, bool(v & 1)]]


def expected_for(t):
    return t in gen.FILES or t.endswith("Action") or t == "Addressee"


@st.composite
def some(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        t = draw(st.sampled_from(sorted(x for x in c37.MODELS if expected_for(x))))
        m = c37.complete(draw(c37.MODELS[t]))
        if t == "AccessProfileFile" and m["access_profile"] is None:
            continue
        out.append([m, draw(gen.BOOL)])
    return out or [[c29.example("Addressee"), True]]


FACETS = [
    Facet("tables", names, cases=tables, rule="every member, value 0..259 and text of every enumeration; near misses"),
    Facet("texts", names, texts, quick=700, rule="random text, mostly close to that of a member"),
    Facet("examples", attributes, cases=acts, rule="every action, operation, file and addressee, built and parsed"),
    Facet("attributes", attributes, some, quick=700, rule="random actions, files and addressees, built and parsed"),
]
