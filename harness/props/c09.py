from common import *

DEFAULT = {"t": "Configuration", "qos": {"t": "QoS", "resp_mod": E("ResponseMode", "RESP_MODE_NO"), "retry_mod": E("RetryMode", "RETRY_MODE_NO"),
           "stop_on_err": False, "record": False}, "dorm_to": {"t": "CT", "exp": 0, "mant": 0},
           "addressee": {"t": "Addressee", "id_type": E("IdType", "NOID"), "id": None, "access_class": 0, "nls_method": E("NlsMethod", "NONE")}}


def fwd(kw):
    """bytes of the forward action for the given settings, or None when they must be refused"""
    it, cfg = kw.get("interface_type", E("InterfaceType", "HOST")), kw.get("interface_configuration")
    if not isinstance(it, dict) or it.get("e") != "InterfaceType":
        return None
    if it["n"] == "HOST":
        return None if cfg is not None else b""
    if it["n"] == "D7ASP" and cfg is None:
        cfg = DEFAULT
    return bytes([50, ref.val(it)]) + enc(cfg)


def action(name, kw):
    off = lambda: enc({"t": "Offset", "id": kw["file_id"], "offset": {"t": "Length", "value": kw.get("offset", 0)}})
    if name == "create_with_read_file_action":
        return b"\x01" + off() + ref.varlen(kw["length"])
    if name == "create_with_read_file_action_system_file":
        return bytes([1, kw["sysfile"], 0]) + ref.varlen(ref.SYS[kw["sysfile"]][1])
    if name == "create_with_write_file_action":
        return b"\x04" + off() + ref.varlen(len(kw["data"])) + bytes(kw["data"])
    if name == "create_with_write_file_action_system_file":
        f = kw["file"]
        b = enc(f)
        i = gen.FILE_ID[f["t"]] + (f["access_specifier"] if f["t"] == "AccessProfileFile" else 0)
        return bytes([4, i, 0]) + ref.varlen(len(b)) + b
    if name == "create_with_return_file_data_action":
        return b"\x20" + off() + ref.varlen(len(kw["data"])) + bytes(kw["data"])
    if name == "create_with_read_file_header":
        return bytes([2, kw["file_id"]])
    if name == "create_with_write_file_header":
        return bytes([6, kw["file_id"]]) + enc(kw["file_header"])
    if name == "create_with_create_new_file":
        return bytes([17, kw["file_id"]]) + enc(kw["file_header"])
    raise KeyError(name)


def check(w, case, rec):
    steps = w.call("cmds", steps=case)["steps"]
    model = []        # [tag or None, respond, bytes of the actions]
    refusals = 0
    for s, r in zip(case, steps):
        what = "step %s" % short(s, 300)
        k = s[0]
        if k == "factory":
            f = fwd(s[2])
            if f is None:
                refused(r, what, value_error=True)
                refusals += 1
                continue
            model.append([s[2].get("tag_id"), True, f + action(s[1], s[2]), True])
            rec.label(s[1], "iface=" + s[2].get("interface_type", E("InterfaceType", "HOST"))["n"])
        elif k in ("new", "twin"):
            if k == "twin":
                model.append([s[1].get("tag_id"), True, b"".join(enc(a) for a in s[1]["actions"]), True])
            model.append([s[1].get("tag_id"), s[1].get("send_tag_response_when_completed", True),
                          b"".join(enc(a) for a in s[1].get("actions", [])), s[1].get("generate_tag_request_action", True)])
        elif k == "add_action":
            model[s[1]][2] += enc(s[2])
        elif k == "add_forward":
            f = fwd(s[2])
            if f is None:
                refused(r, what, value_error=True)
                refusals += 1
                continue
            model[s[1]][2] += f
        elif k == "add_indirect":
            model[s[1]][2] += bytes([(0x80 if s[2]["overload"] else 0) | 51, s[2]["interface_file_id"]]) + (
                enc(s[2]["overload_configuration"]) if s[2]["overload"] else b"")
        ok(r, what)
        if k == "ser":
            same(r["hex"], whole(model[s[1]]), "bytes of command %d at %s" % (s[1], what))
            continue
        for m, t in zip(model, r["tags"]):
            if m[0] is None and m[3]:
                need(isinstance(t, int) and 0 <= t <= 255, "generated tag %s", t)
                m[0] = t
        same(r["tags"], [m[0] for m in model], "tags after %s" % what)
        for i, (m, h) in enumerate(zip(model, r["all"])):
            ok(h, "serialising command %d after %s" % (i, what))
            same(h, whole(m), "bytes of command %d after %s" % (i, what))
    rec.nontrivial(len(model) >= 2 or refusals)
    rec.label("commands=%d" % len(model), "refusals=%d" % min(refusals, 3))


def whole(m):
    return ((bytes([(0x80 if m[1] else 0) | 52, m[0]]) if m[3] else b"") + m[2]).hex()


I = lambda n: E("InterfaceType", n)


@st.composite
def iface(draw, kw):
    k = draw(st.integers(0, 11))
    if k < 2:
        if k:
            kw["interface_type"] = I("HOST")
    elif k < 5:
        kw["interface_type"] = I("D7ASP")
        kw["interface_configuration"] = draw(gen.configuration)
    elif k == 5:
        kw["interface_type"] = I("D7ASP")
    elif k == 6:
        kw["interface_type"] = I("SERIAL")
    elif k == 7:
        kw["interface_type"] = I("LORAWAN_ABP")
        kw["interface_configuration"] = draw(gen.abp)
    elif k == 8:
        kw["interface_type"] = I("LORAWAN_OTAA")
        kw["interface_configuration"] = draw(gen.otaa)
    elif k == 9:
        if draw(gen.BOOL):
            kw["interface_type"] = I("HOST")
        kw["interface_configuration"] = draw(st.one_of(gen.configuration, gen.abp, gen.otaa))
    elif k == 10:
        kw["interface_type"] = draw(st.sampled_from([None, 0, 1, 0xD7, {"str": "D7ASP"}, {"str": "HOST"}, {"obj": 1}, E("IdType", "UID")]))
        if kw["interface_type"] == 0:
            kw["interface_type"] = 4
    else:
        kw["interface_type"] = I("D7ASP")
        kw["interface_configuration"] = draw(gen.configuration)
    return kw


@st.composite
def factory(draw):
    n = draw(st.sampled_from(["create_with_read_file_action", "create_with_read_file_action_system_file", "create_with_write_file_action",
                              "create_with_write_file_action_system_file", "create_with_return_file_data_action",
                              "create_with_read_file_header", "create_with_write_file_header", "create_with_create_new_file"]))
    kw = {}
    if n.endswith("system_file"):
        if "read" in n:
            kw["sysfile"] = draw(st.integers(0, 0x2E))
        else:
            kw["file"] = draw(gen.FILES[draw(st.sampled_from(sorted(gen.FILES)))])
    else:
        kw["file_id"] = draw(gen.BYTE)
    if n == "create_with_read_file_action":
        kw["length"] = draw(gen.lenval())
    if n in ("create_with_write_file_action", "create_with_return_file_data_action"):
        kw["data"] = draw(gen.payload(300))
    if n in ("create_with_write_file_action", "create_with_return_file_data_action", "create_with_read_file_action") and draw(st.integers(0, 2)):
        kw["offset"] = draw(gen.lenval())
    if n == "create_with_return_file_data_action" and draw(gen.BOOL):
        kw["tag_id"] = draw(gen.BYTE)
    if n.endswith("_header") and "write" in n or n.endswith("new_file"):
        kw["file_header"] = draw(gen.header)
    return ["factory", n, draw(iface(kw))]


@st.composite
def history(draw):
    steps, n = [], 0
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 8))
        if k <= 3 or n == 0:
            if draw(st.integers(0, 3)):
                s = draw(factory())
                n += fwd(s[2]) is not None
            else:
                s = ["new", {}]
                if draw(gen.BOOL):
                    s[1]["tag_id"] = draw(gen.BYTE)
                if draw(gen.BOOL):
                    s[1]["send_tag_response_when_completed"] = draw(gen.BOOL)
                if draw(st.integers(0, 3)) == 0:
                    s[1]["generate_tag_request_action"] = False
                if draw(gen.BOOL):
                    s[1]["actions"] = draw(st.lists(gen.built_action(20), max_size=2))
                n += 1
            if s[0] == "new" and "actions" in s[1] and draw(gen.BOOL):
                s = ["twin", {"actions": s[1]["actions"]}]      # two commands made from the same list and objects
                n += 1
            steps.append(s)
            continue
        i = draw(st.integers(0, n - 1))
        if k == 4:
            steps.append(["ser", i])
        elif k <= 6:
            steps.append(["add_action", i, draw(gen.built_action(20))])
        elif k == 7:
            steps.append(["add_forward", i, draw(iface({}))])
        else:
            ov = draw(gen.BOOL)
            kw = {"interface_file_id": draw(gen.BYTE), "overload": ov}
            if ov:
                kw["overload_configuration"] = draw(gen.addressee)
            steps.append(["add_indirect", i, kw])
    return steps


def defaults():
    """each factory with each interface, defaults left out"""
    hdr = {"t": "FileHeader", "permissions": {"t": "FilePermissions", "encrypted": False, "executeable": True, "user_readable": True,
           "user_writeable": False, "user_executeable": True, "guest_readable": False, "guest_writeable": True, "guest_executeable": False},
           "properties": {"t": "FileProperties", "act_enabled": True, "act_condition": E("ActionCondition", "WRITE"),
                          "storage_class": E("StorageClass", "RESTORABLE")}, "alp_command_file_id": 3, "interface_file_id": 4,
           "file_size": 5, "allocated_size": 2 ** 31}
    base = {"create_with_read_file_action": {"file_id": 0x40, "length": 8}, "create_with_read_file_action_system_file": {"sysfile": 1},
            "create_with_write_file_action": {"file_id": 0x41, "data": [1, 2, 3]},
            "create_with_write_file_action_system_file": {"file": {"t": "UidFile", "uid": 77}},
            "create_with_return_file_data_action": {"file_id": 0x42, "data": []},
            "create_with_read_file_header": {"file_id": 0x43}, "create_with_write_file_header": {"file_id": 0x44, "file_header": hdr},
            "create_with_create_new_file": {"file_id": 0x45, "file_header": hdr}}
    abp = {"t": "ABP", "adr_enabled": True, "request_ack": False, "app_port": 1, "data_rate": 2, "dev_addr": 2 ** 32 - 1, "netw_id": 5}
    otaa = {"t": "OTAA", "adr_enabled": False, "request_ack": True, "app_port": 255, "data_rate": 0}
    for n in sorted(base):
        for it, cfg in ((None, None), ("HOST", None), ("HOST", DEFAULT), (None, otaa), ("D7ASP", None), ("D7ASP", DEFAULT), ("SERIAL", None),
                        ("LORAWAN_ABP", abp), ("LORAWAN_OTAA", otaa)):
            kw = dict(base[n])
            if it:
                kw["interface_type"] = I(it)
            if cfg:
                kw["interface_configuration"] = cfg
            yield [["factory", n, kw], ["factory", n, base[n]], ["add_forward", 0, {"interface_type": I("D7ASP")}]]


def sizes():
    """every system file read and written, PHY statuses of all sizes, data at the limits of the length encodings"""
    import props.c29 as c29
    d7 = {"interface_type": I("D7ASP"), "interface_configuration": DEFAULT}
    for i in sorted(ref.SYS):
        yield [["factory", "create_with_read_file_action_system_file", {"sysfile": i}], ["factory", "create_with_read_file_action_system_file", dict(d7, sysfile=i)]]
    for t in sorted(gen.FILES):
        f = c29.example(t)
        for n in (0, 1, 9, 10, 11, 12, 15, 81, 255) if t == "PhyStatusFile" else (None,):
            if n is not None:
                f = dict(f, channel_status_list_length=n, channel_noise_floor=[j % 256 for j in range(n)],
                         channel_status_identifier=[{"t": "ChannelStatusIdentifier", "channel_band": E("ChannelBand", "BAND_868"), "channel_bandwidth": E("Bandwidth", "kHz200"),
                                                     "channel_index": j} for j in range(n)])
            yield [["factory", "create_with_write_file_action_system_file", dict(x, file=f)] for x in ({}, d7)]
        if t == "AccessProfileFile":
            yield [["factory", "create_with_write_file_action_system_file", {"file": dict(f, access_specifier=j)}] for j in range(15)]
    for n in (0, 1, 63, 64, 65, 255, 256, 257, 16383, 16384):
        data = [(j * 7 + n) % 256 for j in range(n)]
        for x in ({}, dict(d7, offset=n), {"offset": 2 ** 30 - 1 - n}):
            yield [["factory", "create_with_write_file_action", dict(x, file_id=n % 256, data=data)], ["factory", "create_with_return_file_data_action", dict(x, file_id=255, data=data)],
                   ["factory", "create_with_read_file_action", dict(x, file_id=0, length=n)]]


FACETS = [
    Facet("sizes", check, cases=sizes, rule="every system file, PHY statuses with up to 255 channels, data of up to 16384 bytes"),
    Facet("defaults", check, cases=defaults, rule="every factory and interface; non-trivial: two commands or a refusal"),
    Facet("history", check, history, quick=2200,
          rule="histories of 1..7 steps over several commands, all re-serialised after every step; non-trivial: two commands or a refusal"),
]
