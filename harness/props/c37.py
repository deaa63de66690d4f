import json, os
from common import *
import props.c29 as c29
import props.c09 as c09

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIGS = json.load(open(os.path.join(HERE, "sigs.json")))
OPS_ONLY = ("Action", "StatusAction", "NotImplementedFile")
NO_OPERATION = {"t": "NoOperation", "operand": None}

icf = gen.M("InterfaceConfigurationFile", interface_configuration=gen.iface.filter(lambda i: i["interface_id"]["n"] in ("D7ASP", "LORAWAN_OTAA", "LORAWAN_ABP")),
            file_id=gen.bint(0x1D, 0x1F))
MODELS = dict(c29.MODELS, InterfaceConfigurationFile=icf, ABP=gen.abp, OTAA=gen.otaa)
MODELS = {t: s for t, s in MODELS.items() if t in SIGS and t not in OPS_ONLY}
TAGS = sorted(MODELS)
# the actions whose operation has to be of one kind cannot do without it
NEEDED = {t: ("operation",) for t in ("ForwardAction", "IndirectForwardAction", "TagRequestAction", "TagResponseAction")}
TOGETHER = {"PhyStatusFile": ("channel_status_list_length", "channel_status_identifier", "channel_noise_floor"), "Addressee": ("id_type", "id")}


def optional(t):
    return [n for n, d in SIGS[t] if d is not None and n not in NEEDED.get(t, ())]


def fill(m, left):
    """the model with the documented default of every argument left out"""
    d = dict(SIGS[m["t"]])
    return {k: (d[k]["d"] if k in left else v) for k, v in m.items()}


def complete(m):
    """the defaults written out, all the way down"""
    if isinstance(m, list):
        return [complete(x) for x in m]
    if not isinstance(m, dict):
        return m
    d = {k: complete(v) for k, v in m.items()}
    for n, v in SIGS.get(m.get("t"), []):
        if n not in d and v is not None:
            d[n] = v["d"]
    return d


def request(m, left, npos):
    names = [n for n, _ in SIGS[m["t"]]]
    pos = names[:npos]
    r = {k: v for k, v in m.items() if k not in left and k not in pos}
    if pos:
        r["args"] = [m.get(n) for n in pos]
    return r


def usable(m, left, npos):
    t = m["t"]
    names = [n for n, _ in SIGS[t]]
    if any(n in left or n not in m for n in names[:npos]):
        return False
    f = fill(m, left)
    if t in ("Addressee", "TpFrame") and not c29.good(f):
        return False
    return not any(0 < len(set(g) & set(left)) < len(g) for k, g in TOGETHER.items() if k == t)


def writable(m):
    t = m["t"]
    if t == "InterfaceConfigurationFile":
        return True
    return c29.comparable(m) and not (t == "AccessProfileFile" and m["access_profile"] is None)


def same_object(r, m, what):
    ok(r, "building " + what)
    exp = shown(c29.strip_uni(complete(m)))
    got = ok(r["dump"], "reading " + what)
    if m["t"] == "Command" and exp["tag_id"] is None and m.get("generate_tag_request_action", True):
        need(isinstance(got["tag_id"], int) and 0 <= got["tag_id"] <= 255, "tag %r of %s", got["tag_id"], what)
        exp["tag_id"] = got["tag_id"]
    for k, v in exp.items():
        same(got.get(k), v, "field %s of %s" % (k, what))
    if writable(m):
        for k in ("hex", "hex2"):
            same(ok(r[k], "serialising " + what), c29.enc_any(m).hex(), "bytes of " + what)


def check(w, case, rec):
    """case: [model, arguments left out, how many are given by position] ..."""
    r = w.call("buildmany", models=[request(*c) for c in case], want=["dump", "hex", "hex2"])["items"]
    some = False
    for (m, left, npos), x in zip(case, r):
        same_object(x, fill(m, left), "%s, %d by position, left out: %s" % (short(request(m, left, npos), 300), npos, ", ".join(left) or "none"))
        some = some or left or npos
        rec.label(m["t"])
    rec.nontrivial(some)


def full(t):
    if t == "InterfaceConfigurationFile":
        return {"t": t, "interface_configuration": c29.example("InterfaceConfiguration"), "file_id": 0x1E}
    if t == "ABP":
        return {"t": t, "adr_enabled": True, "request_ack": False, "app_port": 1, "data_rate": 2, "dev_addr": 2 ** 32 - 1, "netw_id": 5}
    if t == "OTAA":
        return {"t": t, "adr_enabled": False, "request_ack": True, "app_port": 255, "data_rate": 0}
    m = c29.example(t)
    return m


def each():
    """nothing left out, everything, all but one, one alone; every number of arguments by position"""
    for t in TAGS:
        m, o = full(t), optional(t)
        names = [n for n, _ in SIGS[t]]
        picks = [[], o] + [[x for x in o if x != y] for y in o] + [[y] for y in o]
        picks += [o[i:] for i in range(1, len(o))] + [list(g) for k, g in TOGETHER.items() if k == t]
        out = [[m, p, 0] for p in picks if usable(m, p, 0)]
        for n in range(1, len(names) + 1):
            for left in ([], [x for x in o if x not in names[:n]]):
                if usable(m, left, n):
                    out.append([m, left, n])
        if t == "Addressee":
            base = dict(m, id_type=E("IdType", "NOID"), id=None)
            out += [[base, ["id"], 0], [base, ["id", "nls_method"], 2], [base, ["id_type", "id", "nls_method"], 1]]
        yield from c29.blocks(out, 8)


@st.composite
def some(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        t = draw(st.sampled_from(TAGS))
        m, o = draw(MODELS[t]), optional(t)
        names = [n for n, _ in SIGS[t]]
        left = [x for x in o if draw(gen.BOOL)]
        if t in TOGETHER and draw(gen.BOOL):
            g = TOGETHER[t]
            left = [x for x in o if x in g or (x in left)] if set(left) & set(g) else left
        npos = draw(st.integers(0, len(names)))
        while npos and not usable(m, left, npos):
            npos -= 1
        if not usable(m, left, npos):
            left = []
        out.append([m, left, npos])
    return out


# ---------------------------------------------------------------- commands

ORDER = {
    "create_with_read_file_action": ["file_id", "length", "offset", "interface_type", "interface_configuration"],
    "create_with_read_file_action_system_file": ["sysfile", "interface_type", "interface_configuration"],
    "create_with_write_file_action": ["file_id", "data", "offset", "interface_type", "interface_configuration"],
    "create_with_write_file_action_system_file": ["file", "interface_type", "interface_configuration"],
    "create_with_return_file_data_action": ["file_id", "data", "offset", "tag_id", "interface_type", "interface_configuration"],
    "create_with_read_file_header": ["file_id", "interface_type", "interface_configuration"],
    "create_with_write_file_header": ["file_id", "file_header", "interface_type", "interface_configuration"],
    "create_with_create_new_file": ["file_id", "file_header", "interface_type", "interface_configuration"],
    "new": ["actions", "generate_tag_request_action", "tag_id", "send_tag_response_when_completed"],
    "add_forward": ["interface_type", "interface_configuration"],
    "add_indirect": ["interface_file_id", "overload", "overload_configuration"],
}


@st.composite
def calls(draw):
    """histories of factory calls and additions, leading arguments by position where they are given"""
    steps = draw(c09.history())
    out = []
    for s in steps:
        if s[0] in ("factory", "new", "add_forward", "add_indirect"):
            kw = dict(s[-1])
            if s[0] == "add_indirect" and not kw["overload"] and draw(gen.BOOL):
                pass
            names = ORDER[s[1] if s[0] == "factory" else s[0]]
            n = 0
            while n < len(names) and names[n] in kw:
                n += 1
            n = draw(st.integers(0, n))
            s = s[:-1] + [kw, names[:n]]
        out.append(s)
    return out


def commands(w, case, rec):
    c09.check(w, case, rec)
    rec.nontrivial(any(len(s) > 3 or (s[0] != "factory" and isinstance(s[-1], list) and s[-1]) for s in case if s[0] != "ser"))


def tags(w, case, rec):
    """case: how many commands of each kind; each gets its own tag"""
    steps = []
    for kind in case:
        steps.append({"new": ["new", {}], "actions": ["new", {"actions": []}], "read": ["factory", "create_with_read_file_header", {"file_id": 0x40}],
                      "return": ["factory", "create_with_return_file_data_action", {"file_id": 0x40, "data": [1]}],
                      "write": ["factory", "create_with_write_file_action", {"file_id": 0x40, "data": [1]}]}[kind])
    r = w.call("cmds", steps=steps)["steps"]
    got = ok(r[-1], "the last command")["tags"]
    need(all(isinstance(t, int) and 0 <= t <= 255 for t in got), "tags %r", got)
    n = len(got)
    need(len(set(got)) >= min(n, 40) // 4, "%d commands built without a tag got the tags %r", n, got)
    need(all(len(set(got[i:i + 24])) > 3 for i in range(0, n - 24, 8)), "successive commands built without a tag got the tags %r", got)
    rec.nontrivial(n >= 24)


FACETS = [
    Facet("each", check, cases=each, rule="every class: every optional argument alone left out or alone given, every number of arguments by position"),
    Facet("some", check, some, quick=900, rule="random models, any of their optional arguments left out, leading ones by position; non-trivial: at least one so"),
    Facet("calls", commands, calls, quick=900, rule="histories of factory calls and additions (as C09) with leading arguments by position; non-trivial: one was"),
    Facet("tags", tags, lambda: st.lists(st.sampled_from(["new", "actions", "read", "return", "write"]), min_size=24, max_size=200), quick=40,
          cases=lambda: [["new"] * 256, ["read"] * 256, ["write", "return"] * 128], rule="24..256 commands made without a tag"),
]
