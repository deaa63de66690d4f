import json
from common import *
import props.c29 as c29
import props.c37 as c37

SINGLE = sorted(t for t in c37.MODELS if t not in ("FgFrame", "NpFrame", "TpFrame"))
FRAMES = ["FgFrame"]
# what can be parsed by the class itself
PARSED = ["CT", "Length", "Offset", "Configuration", "Addressee", "Status", "QoS", "FileHeader", "FilePermissions", "FileProperties", "FileHeaderOperand",
          "SubProfile", "SubBand", "AccessProfile", "ChannelHeader", "ChannelID", "ChannelStatusIdentifier", "BgFrame", "BgControl", "FgControl", "FgFrame",
          "UidFile", "VidFile", "FirmwareVersionFile", "EngineeringModeFile", "FactorySettingsFile", "DllConfigFile", "DllStatusFile", "PhyStatusFile",
          "RootAuthenticationKeyFile", "UserAuthenticationKeyFile", "SecurityKeyFile", "NpControl", "TpControl", "ABP", "OTAA", "QueryOperand"]
parseable = lambda m: m["t"] in PARSED and (m["t"] != "AccessProfile" or len(m["sub_bands"]) == 8)
LOOKS = ["hex", "str", "as_dict", "pickle", "eq", "dump", "len", "repr", "copy", "spoil-copy", "spoil-pickled", "spoil-export", "spoil-bytes", "partial", "interleaved", "ask"]
# fields that only fit together with others, or that are converted when the object is made
FIXED = {"Addressee": ("id_type", "id"), "TpControl": None, "NpControl": ("has_no_origin_access_id", "origin_id_type"), "InterfaceConfiguration": None,
         "PhyStatusFile": ("channel_status_list_length", "channel_status_identifier", "channel_noise_floor"), "FactorySettingsFile": ("rssi_smoothing",),
         "DataRequest": ("length",), "InterfaceStatusOperand": None, "QueryOperand": ("type", "params"), "TpFrame": ("control", "tl", "te", "tc", "agc_rx_level_i"),
         "IndirectForwardAction": ("overload",), "IndirectInterfaceOperand": ("interface_configuration_overload",), "RegularAction": ("operation",),
         "FgControl": ("id_type",), "FgFrame": ("control", "length", "target_address"), "NpFrame": ("control", "origin_access_id"), "Command": None,
         "AccessProfile": ("sub_profiles", "sub_bands"), "AccessProfileFile": ("access_specifier", "access_profile"), "StatusAction": None}


def json_copy(m):
    return json.loads(json.dumps(m))


def places(m, path=()):
    """every field of the model, at any depth, that can be changed on its own"""
    out = []
    if isinstance(m, list):
        for i, x in enumerate(m):
            if isinstance(x, dict):
                out += places(x, path + (i,))
        return out
    if not isinstance(m, dict) or "t" not in m:
        return out
    t = m["t"]
    fixed = FIXED.get(t, ())
    for k in sorted(m):
        if k == "t":
            continue
        kind = c29.FIELDS.get(t, {}).get(k)
        if kind and fixed is not None and k not in fixed and kind[0] in ("int", "bool", "enum", "bytes", "str"):
            out.append((path + (k,), kind))
        if isinstance(m[k], (dict, list)):
            if isinstance(m[k], dict) and fixed is not None and k not in fixed and kind and kind[0] == "obj":
                out.append((path + (k,), kind))
            out += places(m[k], path + (k,))
    return out


def writable(m):
    t = m["t"]
    return t not in ("InterfaceStatusOperand", "StatusAction", "InterfaceStatus") and not (t == "AccessProfileFile" and m["access_profile"] is None)


def bytes_of(m):
    return c29.enc_any(c37.complete(m)).hex()


def check(w, case, rec):
    """case: steps on a pool of objects; after each step every object has the bytes and fields of its own model"""
    models, prints, commands = [], [], {}
    attr = lambda p: ["executable" if x == "executeable" else x for x in p]      # the attribute is spelt differently from the argument
    wire = lambda s: s[:2] + [attr(s[2])] + s[3:] if s[0] == "set" else ["make", s[2]] if s[0] == "make" and len(s) > 2 else s
    steps = w.call("pool", steps=[wire(s) for s in case])["steps"]
    spoilt = set()
    changes = looks = 0
    for i, (s, r) in enumerate(zip(case, steps)):
        at = "step %d, %s" % (i, short(s, 200))
        ok(r, at)
        changed = None
        if s[0] in ("make", "forward"):
            models.append(json_copy(s[1]))
        elif s[0] == "parse":
            models.append(json_copy(s[1]))
        elif s[0] == "command":
            models.append(None)
        elif s[0] == "look":
            looks += 1
            rec.label("look=" + s[2])
        elif s[0] == "set":
            o = models[s[1]]
            for k in s[2][:-1]:
                o = o[k]
            o[s[2][-1]] = json_copy(s[3])
            changed = s[1]
            changes += 1
            rec.label("set=" + str(s[2][-1]))
        elif s[0] == "append":          # whether the object itself can then still be written is left open
            spoilt.add(s[1])
            changed = s[1]
            changes += 1
            rec.label("append")
        same(len(r["all"]), len(models), "objects")
        for j, ((h, fp), m) in enumerate(zip(r["all"], models)):
            name = "object %d" % j
            if m is None:
                ok(h, "serialising " + name)
                if j < len(prints):
                    same(h, commands[j], "bytes of %s (a parsed command) after %s" % (name, at))
                commands[j] = h
            elif writable(m) and j not in spoilt:
                same(ok(h, "serialising " + name), bytes_of(m), "bytes of %s (%s) after %s" % (name, m["t"], at))
            if j < len(prints) and j != changed:
                same(fp, prints[j], "fingerprint of the fields of %s after %s" % (name, at))
        prints = [fp for _, fp in r["all"]]
    rec.nontrivial(len(models) >= 2 and changes + looks >= 1)
    rec.label("objects=%d" % min(len(models), 6), "changes=%d" % min(changes, 4))


@st.composite
def value(draw, kind, old):
    k = kind[0]
    if k == "int":
        hi, lo = kind[2], kind[1]
        return draw(st.one_of(st.integers(lo, hi), st.sampled_from(sorted({lo, hi}))))
    if k == "bool":
        return draw(gen.BOOL)
    if k == "enum":
        return E(kind[1], draw(st.sampled_from(sorted(ref.ENUM[kind[1]]))))
    if k == "bytes":
        return [draw(gen.BYTE) for _ in old]
    if k == "str":
        return {"str": draw(st.text("abcXYZ019 ", max_size=kind[1]))}
    m = draw(c37.MODELS[kind[1]])
    return m


def settable(m, path, kind):
    """the parent, with the value to be set, still fits together"""
    o = m
    for k in path[:-1]:
        o = o[k]
    return o, path[-1]


@st.composite
def history(draw):
    steps, pool, fresh = [], [], []
    few = draw(st.lists(st.sampled_from(SINGLE + FRAMES), min_size=1, max_size=3))
    for _ in range(draw(st.integers(3, 12))):
        k = draw(st.integers(0, 9))
        if len(pool) < 2 or k < 3 and len(pool) < 7:
            t = draw(st.sampled_from(few))
            first, now = [m for m in fresh if m["t"] == t], [m for m in pool if isinstance(m, dict) and m["t"] == t]
            pick = draw(st.integers(0, 2)) if first and now else 0
            m = json_copy(draw(st.sampled_from(first if pick == 1 else now))) if pick else draw(c37.MODELS[t])
            if not pick:
                fresh.append(json_copy(m))
            j = draw(st.integers(0, 7))
            if j == 7 and t not in FRAMES:
                acts = draw(gen.wire_actions(30, 3))
                b = b"".join(enc(a) for a in acts)
                pool.append(b.hex())
                steps.append(["command", None, b.hex()])
            elif parseable(m) and j >= 3 and pick < 2:
                pool.append(m)
                steps.append(["parse", m, bytes_of(m)])
            else:
                m = c37.complete(m)
                if t == "Command":
                    m["generate_tag_request_action"] = True
                    m["tag_id"] = m["tag_id"] if isinstance(m["tag_id"], int) else 7
                    m["actions"] = [a for a in m["actions"] if a["t"] in ("RegularAction", "ForwardAction", "IndirectForwardAction")]
                pool.append(m)
                steps.append(["make", m])
        elif k < 6:
            i = draw(st.integers(0, len(pool) - 1))
            steps.append(["look", i, draw(st.sampled_from(LOOKS)), draw(st.integers(0, len(pool) - 1))])
        else:
            i = draw(st.sampled_from([j for j, m in enumerate(pool) if isinstance(m, dict)] or [0]))
            ps = places(pool[i]) if isinstance(pool[i], dict) else []
            if not ps:
                continue
            path, kind = draw(st.sampled_from(ps))
            o, last = settable(pool[i], path, kind)
            v = draw(value(kind, o[last]))
            o2 = dict(o, **{last: v})
            if o2.get("t") in ("AccessProfileFile",) or not c29.good(o2):
                continue
            steps.append(["set", i, list(path), v])
            pool[i] = json_copy(pool[i])
            o, last = settable(pool[i], path, kind)
            o[last] = v
    return json_copy(steps)


def each():
    """every class: two equal objects, one of them looked at in every way; then one of its fields changed after the other"""
    for t in SINGLE + FRAMES:
        m = c37.complete(c37.full(t))
        if t == "Command":
            m = dict(m, tag_id=9, generate_tag_request_action=True)
        start = [["make", m], ["parse", m, bytes_of(m)] if parseable(m) else ["make", m], ["make", m]]
        yield start + [["look", i % 3, x, (i + 1) % 3] for i, x in enumerate(LOOKS + LOOKS[::-1])]
        ps = places(m)
        for i in range(0, len(ps), 8):
            steps = list(start)
            for path, kind in ps[i:i + 8]:
                if kind[0] == "obj":
                    continue
                vs = [v for v in c29.at(kind) if not (isinstance(v, dict) and "uni" in v)]
                if kind[0] == "bytes":
                    vs = [[9] * 2]
                o, last = settable(m, path, kind)
                vs = [v for v in vs if v != o[last] and c29.good(dict(o, **{last: v}))][-1:]
                for v in vs:
                    steps += [["look", 1, "hex", 0], ["set", 1, list(path), v], ["look", 0, "str", 1]]
            yield json_copy(steps)


# the arguments whose defaults are objects
PARTS = {t: [n for n, d in c37.SIGS[t] if d is not None and n in c29.FIELDS.get(t, {}) and n != "operation" and (isinstance(d["d"], list) or isinstance(d["d"], dict) and "t" in d["d"])]
         for t in SINGLE}
LISTS = {"Data": ["data"], "Command": ["actions"], "PhyStatusFile": ["channel_status_identifier", "channel_noise_floor"]}
PARTS.update({t: [] for t in LISTS if t != "Data"})
DEFAULT_CSI = {"t": "ChannelStatusIdentifier", **{n: d["d"] for n, d in c37.SIGS["ChannelStatusIdentifier"]}}


def left_out(m, pick):
    """(what is asked for, what it should be): arguments left out wherever pick() says so, at any depth"""
    if isinstance(m, list):
        both = [left_out(x, pick) for x in m]
        return [a for a, _ in both], [b for _, b in both]
    if not isinstance(m, dict) or "t" not in m:
        return m, m
    t, asked, full = m["t"], {}, {}
    for k, v in m.items():
        if (k in PARTS.get(t, ()) and pick()):
            full[k] = json_copy(dict(c37.SIGS[t])[k]["d"])
        else:
            asked[k], full[k] = left_out(v, pick)
    if t == "PhyStatusFile" and pick():
        n, keep = full["channel_status_list_length"], len(full["channel_status_identifier"]) // 2
        asked["channel_status_identifier"] = asked["channel_status_identifier"][:keep]
        full["channel_status_identifier"] = full["channel_status_identifier"][:keep] + [json_copy(DEFAULT_CSI) for _ in range(n - keep)]
        if keep == 0:
            del asked["channel_status_identifier"]
    if t == "PhyStatusFile" and full["channel_status_list_length"] == 0:
        asked = {k: v for k, v in asked.items() if k not in ("channel_status_identifier", "channel_noise_floor", "channel_status_list_length")}
    if t == "Command" and full["actions"] == [] and pick():
        del asked["actions"]
    return asked, c37.complete(full)


def forward_model(tag):
    conf = {"t": "Configuration", **{n: json_copy(d["d"]) for n, d in c37.SIGS["Configuration"]}}
    return c37.complete({"t": "Command", "actions": [{"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "Forward", "operand": {
        "t": "InterfaceConfiguration", "interface_id": E("InterfaceType", "D7ASP"), "interface_configuration": conf}}}],
        "generate_tag_request_action": True, "tag_id": tag, "send_tag_response_when_completed": True})


def changes_of(m, only=None):
    for path, kind in places(m):
        if kind[0] in ("int", "bool", "enum") and (only is None or only(path)):
            o, last = settable(m, path, kind)
            vs = [v for v in c29.at(kind) if not (isinstance(v, dict) and "uni" in v) and v != o[last] and c29.good(dict(o, **{last: v}))]
            if vs:
                yield list(path), vs[-1]


def left_each():
    """every argument with a default object left out: the default of one object is changed, before and after others are made"""
    wrap = {"Offset": lambda m: m, "DataRequest": lambda m: {"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "ReadFileData", "operand": m}},
            "Data": lambda m: {"t": "RegularAction", "group": False, "resp": False, "operation": {"t": "WriteFileData", "operand": m}}}
    for t in sorted(PARTS):
        if t == "Command":
            continue
        m = c37.full(t)
        if not PARTS[t] and t != "PhyStatusFile":
            continue
        if t == "PhyStatusFile":
            m = dict(m, channel_status_list_length=4, channel_status_identifier=[json_copy(DEFAULT_CSI) for _ in range(4)], channel_noise_floor=[1, 2, 3, 4])
        for f in [lambda m: m] + ([wrap[t]] if t in wrap else []):
            asked, full = left_out(f(m), lambda: True)
            make = ["make", full, asked]
            for path, v in changes_of(full):
                yield json_copy([make, make, ["set", 0, path, v], make, ["set", 2, path, v], ["look", 1, "hex", 0], make])
            if t in LISTS and "operation" not in full:
                for l in LISTS[t]:
                    x = 5 if l != "channel_status_identifier" else DEFAULT_CSI
                    empty = ["make"] + [y for y in left_out(dict(m, channel_status_list_length=0, channel_status_identifier=[], channel_noise_floor=[]) if t != "Data" else m,
                                                           lambda: True)][::-1]
                    yield json_copy([empty, empty, ["append", 0, [l], x], empty, ["append", 2, [l], x], empty])
    cmd = lambda: {"t": "Command", "actions": [], "generate_tag_request_action": True, "tag_id": 9, "send_tag_response_when_completed": True}
    asked = {k: v for k, v in cmd().items() if k != "actions"}
    make = ["make", c37.complete(cmd()), asked]
    yield json_copy([make, make, ["append", 0, ["actions"], c37.full("RegularAction")], make])
    m = forward_model(9)
    make = ["forward", m, 9]
    for path, v in changes_of(m, lambda p: "operation" in p):
        yield json_copy([make, make, ["set", 0, path, v], make, ["set", 2, path, v], make])
    d = dict(c37.SIGS["InterfaceConfigurationFile"])["interface_configuration"]["d"]
    files = ["make", c37.complete({"t": "InterfaceConfigurationFile", "interface_configuration": d, "file_id": 0x1D}), {"t": "InterfaceConfigurationFile"}]
    yield json_copy([files, files, ["set", 0, ["interface_configuration", "interface_configuration"], c29.example("Configuration")], files])
    # commands, and objects made for themselves
    conf = left_out({"t": "Configuration", "qos": 0, "dorm_to": 0, "addressee": 0}, lambda: True)
    make2 = ["make", conf[1], conf[0]]
    for path, v in changes_of(conf[1]):
        yield json_copy([make2, make, ["set", 0, path, v], make, make2, ["set", 1, ["actions", 0, "operation", "operand", "interface_configuration"] + path, v], make2, make])


@st.composite
def left_history(draw):
    some_parts = sorted(t for t in PARTS if PARTS[t] or t == "PhyStatusFile") + ["RegularAction", "AccessProfile", "ForwardAction", "ReadFileData", "ReturnFileData", "WriteFileData",
                                                                                 "InterfaceConfiguration", "Forward", "QueryOperand"]
    few = draw(st.lists(st.sampled_from([t for t in some_parts if t in c37.MODELS]), min_size=1, max_size=3))
    steps, pool, templates = [], [], []
    for _ in range(draw(st.integers(4, 14))):
        k = draw(st.integers(0, 5))
        if len(pool) < 2 or k < 3 and len(pool) < 8:
            if templates and draw(gen.BOOL):
                step = json_copy(draw(st.sampled_from(templates)))
            elif draw(st.integers(0, 5)) == 0:
                tag = draw(gen.BYTE)
                step = ["forward", forward_model(tag), tag]
            else:
                asked, full = left_out(draw(c37.MODELS[draw(st.sampled_from(few))]), lambda: draw(st.integers(0, 2)) > 0)
                step = ["make", full, asked]
            templates.append(json_copy(step))
            pool.append(json_copy(step[1]))
            steps.append(step)
        else:
            i = draw(st.integers(0, len(pool) - 1))
            ps = places(pool[i])
            if not ps:
                continue
            path, kind = draw(st.sampled_from(ps))
            o, last = settable(pool[i], path, kind)
            v = draw(value(kind, o[last]))
            o2 = dict(o, **{last: v})
            if o2.get("t") in ("AccessProfileFile",) or not c29.good(o2):
                continue
            steps.append(["set", i, list(path), json_copy(v)])
            o[last] = v
    return json_copy(steps)


FACETS = [
    Facet("defaults-each", check, cases=left_each, rule="every argument whose default is an object left out, and that default changed in one of several objects"),
    Facet("defaults", check, left_history, quick=500, rule="histories over objects made with such arguments left out at any depth; non-trivial: two objects and a change"),
    Facet("each", check, cases=each, rule="every class: every way of looking at an object, every field changed; non-trivial: two objects and a look or change"),
    Facet("history", check, history, quick=1500, rule="histories of 3..12 steps over built and parsed objects of up to 3 classes, some with equal values; "
          "non-trivial: two objects and a look or change"),
]
