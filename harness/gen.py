"""Hypothesis strategies for the models of ref.py."""
from hypothesis import strategies as st
from ref import ENUM, E, SYS, FACTORY, enc
import mine

NOVEL = mine.novel()


def near(strategy, lo, hi):
    """the strategy, and the integers which the source has gained"""
    pts = [v for v in NOVEL if lo <= v <= hi]
    return st.one_of(strategy, strategy, strategy, st.sampled_from(pts)) if pts else strategy


def bint(lo, hi, *special):
    """integers with weight on the limits, byte boundaries and given values"""
    pts = {lo, lo + 1, hi - 1, hi}
    for p in (7, 8, 15, 16, 24, 31, 32, 63):
        pts.update({2 ** p - 1, 2 ** p, 2 ** p + 1})
    pts.update(special)
    pts = sorted(x for x in pts if lo <= x <= hi)
    return near(st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.sampled_from(pts)), lo, hi)


BYTE = near(st.one_of(st.integers(0, 255), st.integers(0, 255), st.sampled_from([0, 1, 127, 128, 254, 255])), 0, 255)
U16 = bint(0, 0xFFFF, 255, 256)
U32 = bint(0, 0xFFFFFFFF)
U64 = bint(0, 2 ** 64 - 1)
S8 = bint(-128, 127, -1, 0)
BOOL = st.booleans()


def enum(e, *names):
    return st.sampled_from([E(e, n) for n in (names or sorted(ENUM[e]))])


def M(t, **kw):
    return st.fixed_dictionaries(dict(t=st.just(t), **kw))


def opt(s):
    return st.one_of(st.none(), s)


def lenval(hi=2 ** 30 - 1):
    return near(st.one_of(st.integers(0, 70), st.integers(0, hi),
                     st.sampled_from([x for x in (0, 1, 63, 64, 65, 255, 256, 16383, 16384, 16385, 2 ** 22 - 1, 2 ** 22,
                                                  2 ** 22 + 1, 2 ** 30 - 1) if x <= hi])), 0, hi)


ct = M("CT", exp=st.integers(0, 7), mant=st.integers(0, 31))
length = lenval().map(lambda v: {"t": "Length", "value": v})
offset = M("Offset", id=BYTE, offset=length)


def pattern(n, a, b):
    return [(a + b * i) & 255 for i in range(n)]


def payload(hi=300):
    small = st.lists(BYTE, max_size=12) if NOVEL else st.binary(max_size=12).map(list)
    mid = st.builds(pattern, st.sampled_from([n for n in (0, 1, 31, 62, 63, 64, 65, 66, 127, 128, 129, 200, 254, 255, 256,
                                                          257, 300) + tuple(NOVEL) if 0 <= n <= hi]),
                    st.integers(0, 255), st.integers(0, 7))
    return st.one_of(small, small, st.binary(max_size=min(hi, 80)).map(list), mid)


def data(hi=300):
    return M("Data", data=payload(hi), offset=offset)


datareq = M("DataRequest", length=lenval(), offset=offset)
permissions = M("FilePermissions", encrypted=BOOL, executeable=BOOL, user_readable=BOOL, user_writeable=BOOL,
                user_executeable=BOOL, guest_readable=BOOL, guest_writeable=BOOL, guest_executeable=BOOL)
properties = M("FileProperties", act_enabled=BOOL, act_condition=enum("ActionCondition"), storage_class=enum("StorageClass"))
header = M("FileHeader", permissions=permissions, properties=properties, alp_command_file_id=BYTE, interface_file_id=BYTE,
           file_size=U32, allocated_size=U32)
header_operand = M("FileHeaderOperand", file_id=BYTE, file_header=header)
nls = enum("NlsMethod")
addressee = st.one_of(
    M("Addressee", id_type=st.just(E("IdType", "NBID")), id=ct, access_class=BYTE, nls_method=nls),
    M("Addressee", id_type=st.just(E("IdType", "NOID")), id=st.none(), access_class=BYTE, nls_method=nls),
    M("Addressee", id_type=st.just(E("IdType", "VID")), id=U16, access_class=BYTE, nls_method=nls),
    M("Addressee", id_type=st.just(E("IdType", "UID")), id=U64, access_class=BYTE, nls_method=nls))
qos = M("QoS", resp_mod=enum("ResponseMode"), retry_mod=enum("RetryMode"), stop_on_err=BOOL, record=BOOL)
configuration = M("Configuration", qos=qos, dorm_to=ct, addressee=addressee)
abp = M("ABP", adr_enabled=BOOL, request_ack=BOOL, app_port=BYTE, data_rate=BYTE, dev_addr=U32, netw_id=U32)
otaa = M("OTAA", adr_enabled=BOOL, request_ack=BOOL, app_port=BYTE, data_rate=BYTE)
iface = st.one_of(
    M("InterfaceConfiguration", interface_id=st.just(E("InterfaceType", "D7ASP")), interface_configuration=configuration),
    M("InterfaceConfiguration", interface_id=st.just(E("InterfaceType", "LORAWAN_ABP")), interface_configuration=abp),
    M("InterfaceConfiguration", interface_id=st.just(E("InterfaceType", "LORAWAN_OTAA")), interface_configuration=otaa),
    M("InterfaceConfiguration", interface_id=st.just(E("InterfaceType", "SERIAL")), interface_configuration=st.none()))
channel_header = M("ChannelHeader", channel_coding=enum("ChannelCoding"), channel_class=enum("ChannelClass"),
                   channel_band=enum("ChannelBand"))
channel_id = M("ChannelID", channel_header=channel_header, channel_index=U16)
status = M("Status", channel_id=channel_id, rx_level=BYTE, link_budget=BYTE, target_rx_level=BYTE, nls=BOOL, missed=BOOL,
           retry=BOOL, unicast=BOOL, fifo_token=BYTE, seq_nr=BYTE, response_to=ct, addressee=addressee)


def query_of(v, params, off):
    return {"t": "QueryOperand", "type": E("QueryType", "ARITH_COMP_WITH_VALUE"), "mask_present": False, "params": params,
            "compare_length": {"t": "Length", "value": len(v)}, "compare_value": v, "file_a_offset": off}


arith = M("ArithQueryParams", signed_data_type=BOOL, comp_type=enum("ArithComparisonType"))
query = st.builds(query_of, st.one_of(st.binary(max_size=8).map(list), st.binary(max_size=8).map(list), payload(300)),
                  arith, offset)


def op(name, operand):
    return M(name, operand=operand)


def regular(*ops):
    return M("RegularAction", group=BOOL, resp=BOOL, operation=st.one_of(*ops))


forward_action = M("ForwardAction", resp=BOOL, operation=op("Forward", iface))
indirect_action = st.one_of(
    M("IndirectForwardAction", overload=st.just(True), resp=BOOL, operation=op("IndirectForward", M(
        "IndirectInterfaceOperand", interface_file_id=BYTE, interface_configuration_overload=addressee))),
    M("IndirectForwardAction", overload=st.just(False), resp=BOOL, operation=op("IndirectForward", M(
        "IndirectInterfaceOperand", interface_file_id=BYTE, interface_configuration_overload=st.none()))))


def wire_ops(hi=300):
    """operations the parser implements"""
    return [op("ReadFileData", datareq), op("WriteFileData", data(hi)), op("CreateNewFile", header_operand),
            op("ReturnFileData", data(hi)), op("ReturnFileData", sysfile_data()), op("ReturnFileHeader", header_operand),
            op("BreakQuery", query)]


def wire_action(hi=300):
    """actions as the parser returns them, without tags and status"""
    w = wire_ops(hi)
    return st.one_of(regular(*w), regular(*w), forward_action, indirect_action)


def built_action(hi=300):
    """actions a command can be built from, without tags and status"""
    w = wire_ops(hi) + [op("ReadFileHeader", M("FileIdOperand", file_id=BYTE)), op("WriteFileHeader", header_operand),
                        op("NoOperation", st.none()), op("Forward", iface)]
    return st.one_of(regular(*w), regular(*w), regular(*w), forward_action, indirect_action)


tag_request = M("TagRequestAction", respond_when_completed=BOOL, operation=op("TagRequest", M("TagId", tag_id=BYTE)))
tag_response = M("TagResponseAction", eop=BOOL, error=BOOL, operation=op("TagResponse", M("TagId", tag_id=BYTE)))


def status_action(iid, s):
    return {"t": "StatusAction", "status_operand_extension": 1,
            "operation": {"t": "InterfaceStatus",
                          "operand": {"t": "InterfaceStatusOperand", "interface_id": iid, "interface_status": s}}}


interface_status = st.one_of(status.map(lambda s: status_action(0xD7, s)), status.map(lambda s: status_action(0xD7, s)),
                             st.sampled_from([0, 1, 0xD7]).map(lambda i: status_action(i, None)))


@st.composite
def wire_actions(draw, hi=300, most=5, tags=True, status=True):
    """the list of actions of a well-formed command, in wire order"""
    acts = draw(st.lists(wire_action(hi), max_size=most))
    if not draw(st.integers(0, 39)):
        n = draw(near(st.integers(most, 40), 0, 60))
        acts = (acts or [draw(wire_action(4))])[:1] + [draw(regular(op("ReadFileData", datareq))) for _ in range(n)]
    if tags and draw(st.integers(0, 9)) < 6:
        acts.insert(draw(st.integers(0, len(acts))), draw(st.one_of(tag_request, tag_response)))
    if status and draw(st.integers(0, 9)) < 4:
        acts.insert(draw(st.integers(0, len(acts))), draw(interface_status))
    return acts


@st.composite
def fitting_actions(draw, limit=255, **kw):
    """as wire_actions, of at most `limit` bytes"""
    acts = draw(wire_actions(**dict(dict(hi=60, most=4), **kw)))
    while sum(len(enc(a)) for a in acts) > limit:
        acts.pop()
    return acts


def widen(draw, m):
    """randomly use longer encodings of the lengths inside a model"""
    if isinstance(m, list):
        return [widen(draw, x) for x in m]
    if not isinstance(m, dict):
        return m
    d = {k: widen(draw, v) for k, v in m.items()}
    n = {"Length": lambda: d["value"], "Data": lambda: len(d["data"]), "DataRequest": lambda: d["length"] if isinstance(d["length"], int) else None}.get(d.get("t"))
    if n is not None:
        v = n()
        if v is None:
            return d
        least = 1 if v < 64 else 2 if v < 2 ** 14 else 3 if v < 2 ** 22 else 4
        w = draw(st.integers(0, 4))
        if w > least:
            d["w"] = w
    return d


# ------------------------------------------------------------------ system files

def name(n):
    return st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=n).map(lambda s: {"str": s})


subprofile = M("SubProfile", subband_bitmap=BYTE, scan_automation_period=ct)
subband = M("SubBand", channel_index_start=U16, channel_index_end=U16, eirp=S8, cca=BYTE, duty=BYTE)


def access_profile(nmin=8):
    return M("AccessProfile", channel_header=channel_header, sub_profiles=st.lists(subprofile, min_size=4, max_size=4),
             sub_bands=st.lists(subband, min_size=nmin, max_size=8))


csi = M("ChannelStatusIdentifier", channel_band=enum("ChannelBand"), channel_bandwidth=enum("Bandwidth"),
        channel_index=bint(0, 1039, 255, 256, 1023, 1024))


@st.composite
def phystatus(draw, hi=12):
    n = draw(st.integers(0, hi))
    return {"t": "PhyStatusFile", "up_time": draw(U32), "rx_time": draw(U32), "tx_time": draw(U32),
            "tx_duty_cycle": draw(bint(0, 1000)), "channel_status_list_length": n,
            "channel_status_identifier": [draw(csi) for _ in range(n)], "channel_noise_floor": [draw(BYTE) for _ in range(n)]}


def _factory():
    kw = {}
    for n, k in FACTORY:
        kw[n] = S8 if k == "b" else U32 if k == 4 else U16 if k == 2 else BYTE
    kw.update(rssi_smoothing=st.one_of(st.integers(2, 256), st.sampled_from([2, 4, 8, 16, 32, 64, 128, 256])),
              rssi_offset=bint(-126, 125, -1, 0), lora_SF=st.integers(6, 12), gaussian=st.integers(0, 3))
    return M("FactorySettingsFile", **kw)


KEY = st.one_of(st.integers(0, 2 ** 128 - 1), bint(0, 2 ** 128 - 1), st.integers(0, 127).map(lambda i: 1 << i))
FILES = {
    "UidFile": M("UidFile", uid=U64),
    "VidFile": M("VidFile", vid=U16, control=BYTE),
    "FirmwareVersionFile": M("FirmwareVersionFile", d7a_protocol_version_major=BYTE, d7a_protocol_version_minor=BYTE,
                             filesystem_version_major=BYTE, filesystem_version_minor=BYTE, application_name=name(6),
                             git_sha1=name(7)),
    "EngineeringModeFile": M("EngineeringModeFile", mode=enum("EngineeringModeMode"), flags=BYTE, timeout=BYTE,
                             channel_id=channel_id, eirp=S8),
    "FactorySettingsFile": _factory(),
    "DllConfigFile": M("DllConfigFile", active_access_class=BYTE, lq_filter=BYTE, nf_ctrl=BYTE,
                       rx_nf_method_parameter=BYTE, tx_nf_method_parameter=BYTE),
    "DllStatusFile": M("DllStatusFile", last_rx_packet_level=BYTE, last_rx_packet_link_budget=BYTE, noise_floor=BYTE,
                       channel_header=channel_header, channel_index=U16, scan_timeout_ratio=U16, scan_count=U32,
                       scan_timeout_count=U32),
    "PhyStatusFile": phystatus(),
    "RootAuthenticationKeyFile": M("RootAuthenticationKeyFile", key=KEY),
    "UserAuthenticationKeyFile": M("UserAuthenticationKeyFile", key=KEY),
    "SecurityKeyFile": M("SecurityKeyFile", key=KEY),
    "AccessProfileFile": M("AccessProfileFile", access_specifier=st.integers(0, 14), access_profile=access_profile()),
}
FILE_ID = {}
for _i in sorted(SYS, reverse=True):
    if SYS[_i][0]:
        FILE_ID[SYS[_i][0]] = _i


@st.composite
def sysfile_data(draw):
    """return data of a system file: valid content, or content cut, extended or damaged"""
    cls = draw(st.sampled_from(sorted(FILES)))
    f = draw(FILES[cls])
    fid = FILE_ID[cls] + (f["access_specifier"] if cls == "AccessProfileFile" else 0)
    b = list(enc(f))
    k = draw(st.integers(0, 9))
    if k == 0:
        b = b[:draw(st.integers(0, len(b)))]
    elif k == 1:
        b = b + draw(st.binary(min_size=1, max_size=3).map(list))
    elif k == 2 and b:
        b[draw(st.integers(0, len(b) - 1))] = draw(BYTE)
    return {"t": "Data", "data": b, "offset": {"t": "Offset", "id": fid, "offset": {"t": "Length", "value":
            draw(st.one_of(st.just(0), st.just(0), st.integers(0, 100)))}}}


# ------------------------------------------------------------------ radio frames

@st.composite
def fg_frame(draw, limit=255, extra=False):
    """well-formed frame, made of what the decoder implements; length counts every byte after it"""
    k = draw(st.sampled_from(["NBID", "NOID", "UID", "VID"]))
    ok = draw(st.sampled_from(["UID", "VID", "NBID", "NOID"]))
    no_origin = ok in ("NBID", "NOID") or draw(BOOL)
    start, ack = draw(BOOL), draw(BOOL)
    c = {"t": "TpControl", "is_dialog_start": start, "has_tl": draw(BOOL), "has_te": draw(BOOL), "is_ack_requested": ack,
         "is_ack_not_void": False, "is_ack_record_requested": False, "has_agc": draw(BOOL)}
    acts = draw(fitting_actions(limit=limit - 30, hi=draw(st.sampled_from([20, 60, 225])), status=extra, tags=extra))
    tp = {"t": "TpFrame", "control": c, "dialog_id": draw(BYTE), "transaction_id": draw(BYTE),
          "agc_rx_level_i": draw(st.integers(0, 31)) if c["has_agc"] else 10, "tl": draw(ct) if c["has_tl"] else None,
          "te": draw(ct) if c["has_te"] else None, "tc": draw(ct) if start and ack else None, "ack_template": None,
          "alp_command": {"t": "Command", "actions": acts, "tag_id": None, "send_tag_response_when_completed": True,
                          "interface_status": None, "execution_completed": False, "completed_with_error": None}}
    n = {"VID": 2, "UID": 8}
    raw = lambda m: list(draw(st.binary(min_size=m, max_size=m)))
    np = {"t": "NpFrame", "control": {"t": "NpControl", "has_no_origin_access_id": no_origin, "has_hopping": False,
                                      "nls_method": E("NlsMethod", "NONE"), "origin_id_type": E("IdType", ok)},
          "origin_access_class": draw(BYTE), "origin_access_id": [] if no_origin else raw(n[ok]), "d7atp_frame": tp}
    f = {"t": "FgFrame", "length": 0, "subnet": draw(BYTE),
         "control": {"t": "FgControl", "id_type": E("IdType", k), "eirp_index": draw(bint(0, 63))},
         "target_address": raw(n.get(k, 0)), "d7anp_frame": np, "crc16": draw(U16)}
    f["length"] = len(enc(f)) - 1
    return f


bg_frame = M("BgFrame", subnet=BYTE, control=M("BgControl", id_type=enum("IdType"), tag=bint(0, 63)), payload=U16, crc16=U16)


# ------------------------------------------------------------------ chunking

@st.composite
def cuts(draw, n):
    """ways to split n bytes: sorted cut positions, possibly repeated (empty chunks)"""
    k = draw(st.integers(0, 5))
    if n == 0 or k == 0:
        return []
    if k == 1:
        return list(range(1, n))
    return sorted(draw(st.lists(st.integers(0, n), max_size=8)))


def split(b, cs):
    out, p = [], 0
    for c in cs:
        out.append(b[p:c])
        p = c
    out.append(b[p:])
    return out


# ------------------------------------------------------------------ serial streams

from ref import serial_frame, Dec, Reject, Unspec, decode_command


@st.composite
def alp_payload(draw, limit=255):
    k = draw(st.integers(0, 9))
    if k == 0:
        n = draw(st.sampled_from([0, 1, 2, 7, 8, 63, 64, 127, 128, 191, 192, 193, 254, 255]))
        return sized(min(draw(near(st.just(n), 0, 255)), limit))
    return b"".join(enc(a) for a in draw(fitting_actions(limit)))


def sized(n, fill=0x5A):
    """a decodable command of exactly n bytes"""
    if n == 0:
        return b""
    if n == 2:
        return b"\x23\x11"
    if n == 4:
        return b"\x20\x40\x00\x00"
    if n in (1, 3):
        return b"\x23\x11" if n == 1 else b"\x62\xd7\x00"
    d = n - 4 if n - 4 < 64 else n - 5
    if 4 + d + (1 if d > 63 else 0) != n:            # 68: one byte header too short, two byte header too long
        return b"\x62\xd7\x00" + sized(n - 3)
    from ref import varlen
    return b"\x20\x40\x00" + varlen(d) + bytes([fill]) * d


RAW = st.one_of(*[st.lists(BYTE, max_size=9).map(bytes), near(st.just(5), 0, 255).map(lambda n: bytes(pattern(n, 0xB9, 7)))][:2 if NOVEL else 0], st.binary(max_size=20), st.binary(max_size=20), st.sampled_from([0, 1, 63, 64, 127, 128, 192, 254, 255]).map(
    lambda n: bytes(pattern(n, 0xB9, 7))), st.lists(st.sampled_from([0xC0, 0, 1, 0xFF]), max_size=12).map(bytes))


@st.composite
def undecodable(draw):
    """bytes that are not a command"""
    k = draw(st.integers(0, 7))
    if k <= 2:
        b = bytearray(draw(alp_payload(60)) or b"\x20\x40\x00\x02\x01\x02")
        i = draw(st.integers(0, len(b) - 1))
        if k == 0:
            b = b[:i]
        elif k == 1:
            b[i] = draw(BYTE)
        else:
            del b[i]
        b = bytes(b)
    elif k == 3:
        b = draw(alp_payload(60)) + draw(st.sampled_from([b"\x05", b"\x3f\x01", b"\x20\x40\x00\x3f\x01", b"\x22\x00", b"\xb2\xd7", b"\x32\x00",
                                                          b"\x32\x09\x00", b"\x09\xff\x01", b"\x62\x02\x00", b"\x74\x01", b"\x20", b"\xff"]))
    elif k == 4:
        b = b"\x34\x01" + draw(alp_payload(60)) + b"\x23\x02"
    elif k == 5:
        b = b"\x20\x40\x00" + bytes([draw(st.integers(1, 63))])
    else:
        b = draw(st.binary(min_size=1, max_size=30))
    try:
        decode_command(b)
    except Reject:
        return b
    except Unspec:
        pass
    return b"\x05" + b


@st.composite
def item(draw, state, kinds, skip=False):
    """one piece of a serial stream; kinds: letters
    A ALP frame, L logging, R reboot, P ping frame, U undecodable payload, C corrupted frame, T truncated frame, G garbage"""
    k = draw(st.sampled_from(kinds))
    if k == "G":
        return k, draw(st.one_of(st.binary(max_size=12), st.lists(st.sampled_from([0xC0, 0xC0, 0, 0, 1, 4, 5, 255]), max_size=14).map(bytes),
                                 st.builds(lambda n, b: bytes([0xC0, 0, 1, 1, n]) + b, st.integers(0, 40), st.binary(max_size=30))))
    c = state[0] if draw(st.integers(0, 5)) else draw(BYTE)
    state[0] = (c + 1) % 256
    if k == "L":
        f = serial_frame(draw(RAW), c, 4)
    elif k == "R":
        f = serial_frame(bytes([draw(BYTE)]) + draw(st.one_of(st.just(b""), st.just(b""), st.binary(max_size=3))), c, 5)
    elif k == "U":
        f = serial_frame(draw(st.one_of(undecodable(), undecodable(), undecodable(), st.just(None)).map(lambda x: x or b"\x05")), c,
                         draw(st.sampled_from([1, 1, 1, 2, 3])))
    elif k == "P":
        f = serial_frame(draw(alp_payload(60)), c, draw(st.sampled_from([2, 3])))
    else:
        f = serial_frame(draw(RAW if skip and draw(BOOL) else alp_payload()), c, 1)
    if k == "C":
        f = bytearray(f)
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(f) - 1)) if draw(BOOL) else draw(st.integers(0, min(len(f) - 1, 7)))
            f[i] ^= draw(st.integers(1, 255))
        f = bytes(f)
    elif k == "T":
        f = f[:draw(st.integers(1, len(f) - 1))]
    return k, f


@st.composite
def stream(draw, kinds="AALRPUCTG", most=7, skip=None):
    s = draw(BOOL) if skip is None else skip
    state = [draw(st.sampled_from([0, 1, 1, 254, 255]))]
    items = [draw(item(state, kinds, s)) for _ in range(draw(st.integers(1, most)))]
    n = sum(len(b) for _, b in items)
    return {"items": [[k, b.hex()] for k, b in items], "cuts": draw(cuts(n)), "skip": s}


def chunks_of(case):
    b = b"".join(bytes.fromhex(h) for _, h in case["items"])
    return b, split(b, case["cuts"])
