import json
from common import *

B = ("int", 0, 255)
B16, B32 = ("int", 0, 0xFFFF), ("int", 0, 0xFFFFFFFF)
S8 = ("int", -128, 127)
BOOL = ("bool",)
BYTES = ("bytes",)
obj = lambda t, nullable=False: ("obj", t, nullable)
enum = lambda e: ("enum", e)
# the documented fields; what is not listed has no documented range
FIELDS = {
    "CT": dict(exp=("int", 0, 7), mant=("int", 0, 31)),
    "Length": dict(value=("int", 0, 2 ** 30 - 1)),
    "Offset": dict(id=B, offset=obj("Length")),
    "Data": dict(data=BYTES, offset=obj("Offset")),
    "DataRequest": dict(length=("int", 0, 2 ** 30 - 1), offset=obj("Offset")),
    "FileIdOperand": dict(file_id=B),
    "FileHeaderOperand": dict(file_id=B, file_header=obj("FileHeader")),
    "IndirectInterfaceOperand": dict(interface_file_id=B, interface_configuration_overload=obj("Addressee", True)),
    "InterfaceConfiguration": dict(interface_id=enum("InterfaceType"), interface_configuration=("validatable",)),
    "InterfaceStatusOperand": dict(interface_id=B, interface_status=obj("Status", True)),
    "ArithQueryParams": dict(signed_data_type=BOOL, comp_type=enum("ArithComparisonType")),
    "QueryOperand": dict(type=enum("QueryType"), mask_present=BOOL, params=obj("ArithQueryParams"), compare_length=obj("Length"),
                         compare_value=BYTES, file_a_offset=obj("Offset")),
    "TagId": dict(tag_id=B),
    "ReadFileData": dict(operand=obj("DataRequest")), "ReadFileHeader": dict(operand=obj("FileIdOperand")),
    "WriteFileData": dict(operand=obj("Data")), "WriteFileHeader": dict(operand=obj("FileHeaderOperand")),
    "CreateNewFile": dict(operand=obj("FileHeaderOperand")), "ReturnFileData": dict(operand=obj("Data")),
    "ReturnFileHeader": dict(operand=obj("FileHeaderOperand")), "BreakQuery": dict(operand=obj("QueryOperand")),
    "Forward": dict(operand=obj("InterfaceConfiguration")), "IndirectForward": dict(operand=obj("IndirectInterfaceOperand")),
    "InterfaceStatus": dict(operand=obj("InterfaceStatusOperand")), "TagRequest": dict(operand=obj("TagId")),
    "TagResponse": dict(operand=obj("TagId")),
    "RegularAction": dict(group=BOOL, resp=BOOL), "ForwardAction": dict(resp=BOOL, operation=("op", "Forward")),
    "IndirectForwardAction": dict(overload=BOOL, resp=BOOL, operation=("op", "IndirectForward")),
    "TagRequestAction": dict(respond_when_completed=BOOL), "TagResponseAction": dict(eop=BOOL, error=BOOL),
    "StatusAction": dict(status_operand_extension=("int", 0, 1)),
    "Command": dict(actions=("list", "Action", 0, None)),
    "QoS": dict(resp_mod=enum("ResponseMode"), retry_mod=enum("RetryMode"), stop_on_err=BOOL, record=BOOL),
    "Configuration": dict(qos=obj("QoS"), dorm_to=obj("CT"), addressee=obj("Addressee")),
    "Addressee": dict(access_class=B, id_type=enum("IdType"), nls_method=enum("NlsMethod"), id=("id",)),
    "Status": dict(channel_id=obj("ChannelID"), rx_level=B, link_budget=B, target_rx_level=B, nls=BOOL, missed=BOOL, retry=BOOL, unicast=BOOL,
                   fifo_token=B, seq_nr=B, response_to=obj("CT"), addressee=obj("Addressee")),
    "NpControl": dict(has_no_origin_access_id=BOOL, has_hopping=BOOL, nls_method=enum("NlsMethod"), origin_id_type=enum("IdType")),
    "NpFrame": dict(control=obj("NpControl"), origin_access_class=B, origin_access_id=BYTES, d7atp_frame=obj("TpFrame")),
    "TpControl": dict(is_dialog_start=BOOL, has_tl=BOOL, has_te=BOOL, is_ack_requested=BOOL, is_ack_not_void=BOOL, is_ack_record_requested=BOOL, has_agc=BOOL),
    "TpFrame": dict(control=obj("TpControl"), dialog_id=B, transaction_id=B, agc_rx_level_i=("int", 0, 31, None), tl=obj("CT", True), te=obj("CT", True),
                    tc=obj("CT", True), alp_command=obj("Command")),
    "FgControl": dict(id_type=enum("IdType"), eirp_index=("int", 0, 63)),
    "FgFrame": dict(length=B, subnet=B, control=obj("FgControl"), target_address=BYTES, d7anp_frame=obj("NpFrame"), crc16=B16),
    "BgControl": dict(id_type=enum("IdType"), tag=("int", 0, 63)),
    "BgFrame": dict(subnet=B, control=obj("BgControl"), payload=B16, crc16=B16),
    "SubProfile": dict(subband_bitmap=B, scan_automation_period=obj("CT")),
    "SubBand": dict(channel_index_start=B16, channel_index_end=B16, eirp=S8, cca=B, duty=B),
    "AccessProfile": dict(channel_header=obj("ChannelHeader"), sub_profiles=("list", "SubProfile", 4, 4), sub_bands=("list", "SubBand", 0, 8)),
    "ChannelHeader": dict(channel_coding=enum("ChannelCoding"), channel_class=enum("ChannelClass"), channel_band=enum("ChannelBand")),
    "ChannelID": dict(channel_header=obj("ChannelHeader"), channel_index=B16),
    "ChannelStatusIdentifier": dict(channel_band=enum("ChannelBand"), channel_bandwidth=enum("Bandwidth"), channel_index=("int", 0, 1039)),
    "FilePermissions": {n: BOOL for n in ("encrypted", "executeable", "user_readable", "user_writeable", "user_executeable", "guest_readable",
                                          "guest_writeable", "guest_executeable")},
    "FileProperties": dict(act_enabled=BOOL, act_condition=enum("ActionCondition"), storage_class=enum("StorageClass")),
    "FileHeader": dict(permissions=obj("FilePermissions"), properties=obj("FileProperties"), alp_command_file_id=B, interface_file_id=B, file_size=B32,
                       allocated_size=B32),
    "UidFile": dict(uid=("int", 0, 2 ** 64 - 1)), "VidFile": dict(vid=B16, control=B),
    "FirmwareVersionFile": dict(d7a_protocol_version_major=B, d7a_protocol_version_minor=B, filesystem_version_major=B, filesystem_version_minor=B,
                                application_name=("str", 6), git_sha1=("str", 7)),
    "EngineeringModeFile": dict(mode=enum("EngineeringModeMode"), flags=B, timeout=B, channel_id=obj("ChannelID"), eirp=S8),
    "FactorySettingsFile": {n: S8 if k == "b" else B32 if k == 4 else B16 if k == 2 else B for n, k in ref.FACTORY},
    "DllConfigFile": dict(active_access_class=B, lq_filter=B, nf_ctrl=B, rx_nf_method_parameter=B, tx_nf_method_parameter=B),
    "DllStatusFile": dict(last_rx_packet_level=B, last_rx_packet_link_budget=B, noise_floor=B, channel_header=obj("ChannelHeader"), channel_index=B16,
                          scan_timeout_ratio=B16, scan_count=B32, scan_timeout_count=B32),
    "PhyStatusFile": dict(up_time=B32, rx_time=B32, tx_time=B32, tx_duty_cycle=("int", 0, 1000), channel_status_list_length=("count", 0, 255),
                          channel_status_identifier=("list", "ChannelStatusIdentifier", 0, 255)),
    "RootAuthenticationKeyFile": dict(key=("int", 0, 2 ** 128 - 1)), "UserAuthenticationKeyFile": dict(key=("int", 0, 2 ** 128 - 1)),
    "SecurityKeyFile": dict(key=("int", 0, 2 ** 128 - 1)),
    "AccessProfileFile": dict(access_specifier=("int", 0, 14), access_profile=obj("AccessProfile", True)),
    "InterfaceConfigurationFile": {},
}
FIELDS["FactorySettingsFile"].update(rssi_offset=("int", -126, 125), lora_SF=("int", 6, 12), gaussian=("int", 0, 3))
del FIELDS["FactorySettingsFile"]["rssi_smoothing"]
FIELDS["RegularAction"]["operation"] = ("anyop",)
for _t in ("InterfaceConfigurationFile",):
    del FIELDS[_t]

# ---------------------------------------------------------------- models inside the limits

from gen import M


def untagged(f):
    f = json.loads(json.dumps(f))
    f["d7anp_frame"]["d7atp_frame"]["alp_command"]["generate_tag_request_action"] = False
    return f


fg = gen.fg_frame(limit=60).map(untagged)
MODELS = {
    "CT": gen.ct, "Length": gen.length, "Offset": gen.offset, "Data": gen.data(70), "DataRequest": gen.datareq,
    "FileIdOperand": M("FileIdOperand", file_id=gen.BYTE), "FileHeaderOperand": gen.header_operand, "FileHeader": gen.header,
    "IndirectInterfaceOperand": M("IndirectInterfaceOperand", interface_file_id=gen.BYTE, interface_configuration_overload=gen.opt(gen.addressee)),
    "InterfaceConfiguration": gen.iface, "InterfaceStatusOperand": M("InterfaceStatusOperand", interface_id=gen.BYTE, interface_status=gen.opt(gen.status)),
    "ArithQueryParams": gen.arith, "QueryOperand": gen.query, "TagId": M("TagId", tag_id=gen.BYTE),
    "QoS": gen.qos, "Configuration": gen.configuration, "Addressee": gen.addressee, "Status": gen.status,
    "NpControl": M("NpControl", has_no_origin_access_id=gen.BOOL, has_hopping=gen.BOOL, nls_method=gen.nls, origin_id_type=gen.enum("IdType")),
    "NpFrame": fg.map(lambda f: f["d7anp_frame"]),
    "TpControl": M("TpControl", **{k: gen.BOOL for k in FIELDS["TpControl"]}),
    "TpFrame": fg.map(lambda f: f["d7anp_frame"]["d7atp_frame"]), "FgControl": M("FgControl", id_type=gen.enum("IdType"), eirp_index=gen.bint(0, 63)), "FgFrame": fg,
    "BgControl": M("BgControl", id_type=gen.enum("IdType"), tag=gen.bint(0, 63)), "BgFrame": gen.bg_frame,
    "SubProfile": gen.subprofile, "SubBand": gen.subband, "AccessProfile": gen.access_profile(0), "ChannelHeader": gen.channel_header,
    "ChannelID": gen.channel_id, "ChannelStatusIdentifier": gen.csi, "FilePermissions": gen.permissions, "FileProperties": gen.properties,
    "TagRequestAction": gen.tag_request, "TagResponseAction": gen.tag_response, "StatusAction": gen.interface_status,
    "RegularAction": gen.regular(*gen.wire_ops(40)), "ForwardAction": gen.forward_action, "IndirectForwardAction": gen.indirect_action,
    "Command": M("Command", actions=st.lists(gen.built_action(20), max_size=3), tag_id=gen.BYTE),
}
MODELS.update(gen.FILES)
for _n in ref.OPCODES:
    if _n != "NoOperation":
        MODELS[_n] = gen.op(_n, MODELS[FIELDS[_n]["operand"][1]])
assert set(MODELS) == set(FIELDS), set(MODELS) ^ set(FIELDS)
TAGS = sorted(FIELDS)


def example(t):
    """a fixed model of every class"""
    ch = {"t": "ChannelHeader", "channel_coding": E("ChannelCoding", "FEC_PN9"), "channel_class": E("ChannelClass", "HI_RATE"), "channel_band": E("ChannelBand", "BAND_868")}
    ct = {"t": "CT", "exp": 3, "mant": 17}
    off = {"t": "Offset", "id": 0x41, "offset": {"t": "Length", "value": 100}}
    addr = {"t": "Addressee", "id_type": E("IdType", "UID"), "id": 0x1122334455667788, "access_class": 5, "nls_method": E("NlsMethod", "AES_CTR")}
    special = {
        "Addressee": addr, "InterfaceConfiguration": {"interface_id": E("InterfaceType", "D7ASP"), "interface_configuration": None},
        "InterfaceStatusOperand": dict(interface_id=0xD7, interface_status=None), "IndirectInterfaceOperand": dict(interface_file_id=0x44, interface_configuration_overload=addr),
        "QueryOperand": dict(type=E("QueryType", "ARITH_COMP_WITH_VALUE"), mask_present=False, compare_length={"t": "Length", "value": 2}, compare_value=[1, 200]),
        "NpControl": dict(origin_id_type=E("IdType", "VID")), "TpFrame": dict(tl=None, te=ct, tc=None, control=None, agc_rx_level_i=9),
        "RegularAction": dict(operation=None), "PhyStatusFile": dict(channel_status_list_length=1), "Command": dict(tag_id=9),
        "TagRequestAction": dict(operation=None), "TagResponseAction": dict(operation=None), "StatusAction": dict(operation=None, status_operand_extension=1),
    }
    sp = special.get(t, {})
    m = {"t": t}
    for k, v in FIELDS[t].items():
        if k in sp and sp[k] is not None:
            m[k] = sp[k]
        elif k in sp and k not in ("operation", "control"):
            m[k] = None
        elif v[0] == "int":
            m[k] = max(v[1], min(v[2], 7))
        elif v[0] == "bool":
            m[k] = len(k) % 2 == 0
        elif v[0] == "bytes":
            m[k] = [1, 255]
        elif v[0] == "enum":
            m[k] = E(v[1], sorted(ref.ENUM[v[1]])[-1])
        elif v[0] == "obj":
            m[k] = example(v[1])
        elif v[0] == "str":
            m[k] = {"str": "abc"}
        elif v[0] == "list":
            m[k] = [] if v[1] == "Action" else [example(v[1]) for _ in range(max(v[2], 1))]
        elif v[0] == "op":
            m[k] = example(v[1])
        elif v[0] == "anyop":
            m[k] = example("ReadFileData")
    if t in ("TagRequestAction", "TagResponseAction", "StatusAction"):
        m["operation"] = example({"TagRequestAction": "TagRequest", "TagResponseAction": "TagResponse", "StatusAction": "InterfaceStatus"}[t])
    if t == "TpFrame":
        m["control"] = {"t": "TpControl", "is_dialog_start": False, "has_tl": False, "has_te": True, "is_ack_requested": False, "is_ack_not_void": False,
                        "is_ack_record_requested": False, "has_agc": True}
    if t == "Command":
        m["generate_tag_request_action"] = False
    if t == "FactorySettingsFile":
        m["rssi_smoothing"] = 8
    if t == "PhyStatusFile":
        m["channel_noise_floor"] = [5]
    return m


# ---------------------------------------------------------------- values outside

WRONG = {"float": {"float": 1.5}, "str": {"str": "1"}, "obj": {"obj": 1}, "ct": {"t": "CT", "exp": 1, "mant": 1}, "list": [1]}


def bad(t, field, kind):
    """values the field must refuse"""
    k = kind[0]
    if k in ("int", "count"):
        out = [kind[1] - 1, kind[2] + 1, -kind[2] - 2, 2 * kind[2] + 2, kind[2] + 2 ** 32, kind[2] + 2 ** 64]
        if k == "count":
            return [kind[2] + 1, kind[2] + 45]
        out += [WRONG["float"], WRONG["str"], E("IdType", "UID"), [kind[1]]]
        if len(kind) == 3 and not (t == "Addressee"):
            out.append(None)
        if t != "Command":
            out.append(WRONG["ct"])
        return out
    if k == "bool":
        return [None, 0, 1, 2, WRONG["str"], WRONG["float"], [], E("IdType", "NOID")]
    if k == "enum":
        other = E("IdType", "UID") if kind[1] != "IdType" else E("NlsMethod", "NONE")
        n = sorted(ref.ENUM[kind[1]])[0]
        return [None, ref.ENUM[kind[1]][n], {"str": n}, other, -1, WRONG["ct"], []]
    if k == "obj":
        return ([] if kind[2] else [None]) + [0, 5, WRONG["str"], [], WRONG["obj"], example("TagId" if kind[1] != "TagId" else "CT"),
                                               example("QoS" if kind[1] != "QoS" else "Addressee")]
    if k == "validatable":
        return [0, 5, WRONG["str"], [1], WRONG["obj"], E("IdType", "UID")]
    if k == "str":
        return [{"str": "x" * (kind[1] + 1)}, {"str": "x" * 50}, 5, [], None, WRONG["ct"]]
    if k == "bytes":
        return [[v] for v in (-1, 256, 1000, None, WRONG["str"], WRONG["float"])] + [[0, 255, 256], [-1, 0], [5] * 30 + [300] + [5] * 30]
    if k == "list":
        e = [] if kind[1] == "Action" else [example(kind[1])]
        out = [e * (kind[2] or 0) + [x] for x in (None, 0, WRONG["str"], example("TagId"), example("QoS"), {"obj": 1})] if kind[2] != kind[3] else \
              [e * (kind[2] - 1) + [x] for x in (None, 0, WRONG["str"], example("TagId"), example("QoS"))]
        if kind[3] is not None:
            out += [e * (kind[3] + 1), e * (kind[3] + 2)]
        if kind[2]:
            out += [e * (kind[2] - 1), []]
        if kind[1] == "Action":
            out += [[example("ReadFileData")], [example("RegularAction"), example("TagId")]]
        return out
    if k == "op":
        return [example(x) for x in ("ReadFileData", "TagRequest", "IndirectForward" if kind[1] != "IndirectForward" else "Forward")]
    if k == "anyop":
        return []
    if k == "id":
        return []
    raise KeyError(k)


ADDR_ID = {"NBID": [None, 0, 5, {"str": "x"}, [], {"t": "TagId", "tag_id": 5}],
           "NOID": [0, 1, {"t": "CT", "exp": 0, "mant": 0}, {"str": ""}, -1],
           "VID": [None, -1, 65536, 2 ** 17, 2 ** 64 - 1, {"t": "CT", "exp": 0, "mant": 0}, {"float": 1.5}, {"str": "1"}],
           "UID": [None, -1, 2 ** 64, 2 ** 65, {"t": "CT", "exp": 0, "mant": 0}, {"float": 1.5}, {"str": "1"}]}


def at(kind):
    """values at and inside the limits"""
    k = kind[0]
    if k == "int":
        lo, hi = kind[1], kind[2]
        return sorted({lo, lo + 1, hi - 1, hi, (lo + hi) // 2} | {v for p in (7, 8, 15, 16, 31, 32, 63, 64, 127) for v in (2 ** p - 1, 2 ** p) if lo <= v <= hi})
    if k == "bool":
        return [False, True]
    if k == "enum":
        return [E(kind[1], n) for n in sorted(ref.ENUM[kind[1]])]
    if k == "obj":
        return [None, example(kind[1])] if kind[2] else [example(kind[1])]
    if k == "str":
        return [{"str": "y" * i} for i in range(kind[1] + 1)] + [{"uni": "abc"}]
    if k == "bytes":
        return [[], [0], [255], list(range(256))]
    if k == "list":
        return [[example(kind[1])] * n for n in ((0, 1, 2, 8) if kind[3] == 8 else (4,))] if kind[1] != "Action" and kind[3] != 255 else []
    return []


def good(m):
    """drop the combinations whose parts do not fit together"""
    t = m["t"]
    if t == "Addressee":
        n = m["id_type"]["n"]
        i = m["id"]
        return {"NBID": isinstance(i, dict), "NOID": i is None, "VID": isinstance(i, int) and i < 65536, "UID": isinstance(i, int)}[n]
    if t == "TpFrame":
        c = m["control"]
        return (m["tl"] is not None or not c["has_tl"]) and (m["te"] is not None or not c["has_te"])
    if t == "AccessProfileFile":
        return m["access_profile"] is not None
    return True


def inside(w, case, rec):
    """case: models that must all be accepted"""
    r = w.call("buildmany", models=case, want=["hex", "hex2"])["items"]
    for m, x in zip(case, r):
        ok(x, "building %s, which is within the limits," % short(m, 500))
        for k in ("hex", "hex2"):
            same(ok(x[k], "serialising %s" % short(m, 500)), enc_any(m).hex() if comparable(m) else x[k], "bytes of %s" % short(m, 300))
    rec.nontrivial()
    rec.label(*sorted({m["t"] for m in case}))


def comparable(m):
    return m["t"] not in ("Command", "InterfaceStatusOperand", "StatusAction", "InterfaceStatus")


def enc_any(m):
    m = strip_uni(m)
    return enc(m)


def strip_uni(m):
    if isinstance(m, dict):
        return {"str": m["uni"]} if "uni" in m else {k: strip_uni(v) for k, v in m.items()}
    return [strip_uni(x) for x in m] if isinstance(m, list) else m


def typed(v, kind):
    """the value has the type of the field, if not its range"""
    k = kind[0]
    if k in ("int", "count"):
        return isinstance(v, int) and not isinstance(v, bool)
    if k == "bool":
        return isinstance(v, bool)
    if k == "enum":
        return isinstance(v, dict) and v.get("e") == kind[1]
    if k == "obj":
        return isinstance(v, dict) and v.get("t") == kind[1] or v is None and kind[2]
    if k == "validatable":
        return v is None or isinstance(v, dict) and "t" in v
    if k == "str":
        return isinstance(v, dict) and ("str" in v or "uni" in v)
    if k == "bytes":
        return isinstance(v, list) and all(isinstance(x, int) for x in v)
    if k == "list":
        return isinstance(v, list) and all(isinstance(x, dict) and (x.get("t") == kind[1] or kind[1] == "Action" and "Action" in x.get("t", "")) for x in v)
    if k == "id":
        return v is None or isinstance(v, int) or isinstance(v, dict) and v.get("t") == "CT"
    return isinstance(v, dict) and "t" in v


def outside(w, case, rec):
    """case: models of which every one has something outside; how a value of another type is refused is not specified"""
    r = w.call("buildmany", models=case, want=[])["items"]
    for m, x in zip(case, r):
        right = all(typed(m[f], k) for f, k in FIELDS[m["t"]].items() if f in m)
        refused(x, "%s" % short(m, 600), value_error=right)
        rec.label("right types" if right else "other types")
    rec.nontrivial()
    rec.label(*sorted({m["t"] for m in case}))


def blocks(ms, n=6):
    ms = list(ms)
    return [ms[i:i + n] for i in range(0, len(ms), n)]


def limits_in():
    for t in TAGS:
        ms = [example(t)]
        for f, kind in sorted(FIELDS[t].items()):
            ms += [m for m in (dict(example(t), **{f: v}) for v in at(kind)) if good(m)]
        if t == "Addressee":
            for n, ids in (("NBID", [{"t": "CT", "exp": 7, "mant": 31}]), ("NOID", [None]), ("VID", [0, 1, 255, 65535]), ("UID", [0, 65536, 2 ** 63, 2 ** 64 - 1])):
                for i in ids:
                    ms.append(dict(example(t), id_type=E("IdType", n), id=i))
        yield from blocks(ms)


def limits_out():
    for t in TAGS:
        ms = []
        for f, kind in sorted(FIELDS[t].items()):
            for v in bad(t, f, kind):
                ms.append(dict(example(t), **{f: v}))
        if t == "Addressee":
            for n, ids in ADDR_ID.items():
                ms += [dict(example(t), id_type=E("IdType", n), id=i) for i in ids]
        yield from blocks(ms)


@st.composite
def one_in(draw):
    return [draw(MODELS[draw(st.sampled_from(TAGS))]) for _ in range(draw(st.integers(1, 4)))]


@st.composite
def one_out(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from([x for x in TAGS if any(bad(x, f, k) for f, k in FIELDS[x].items())]))
        m = draw(MODELS[t])
        fs = draw(st.lists(st.sampled_from(sorted(f for f, k in FIELDS[t].items() if bad(t, f, k))), min_size=1, max_size=2, unique=True))
        for f in fs:
            kind = FIELDS[t][f]
            if kind[0] == "int" and draw(st.booleans()):
                d = draw(st.one_of(st.integers(1, 3), st.integers(1, 2 ** 70)))
                v = kind[2] + d if draw(st.booleans()) else kind[1] - d
            elif kind[0] == "bytes" and m[f] and draw(st.booleans()):
                v = list(m[f])
                v[draw(st.integers(0, len(v) - 1))] = draw(st.sampled_from([-1, 256, 257, 511, 512, -256, 65536]))
            else:
                v = draw(st.sampled_from(bad(t, f, kind)))
            m = dict(m, **{f: v})
        out.append(m)
    return out


FACETS = [
    Facet("limits-in", inside, cases=limits_in, rule="every field of every class at its limits", real=True),
    Facet("limits-out", outside, cases=limits_out, rule="every field of every class just outside its limits, wrong types, None, sizes", real=True),
    Facet("inside", inside, one_in, quick=500, rule="random models of every class", real=True),
    Facet("outside", outside, one_out, quick=700, rule="random models with one or two fields outside", real=True),
]
