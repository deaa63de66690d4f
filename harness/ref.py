"""Reference model of the formats, written from the properties: models are plain dicts {"t": type, field: value},
enumeration members {"e": enum, "n": name}.  enc() gives the bytes a model must serialise to; Dec decodes bytes into
the model the code must report, or raises Reject (must be refused), or Unspec (the properties say nothing)."""

ENUM = {
    "IdType": dict(NBID=0, NOID=1, UID=2, VID=3),
    "NlsMethod": dict(NONE=0, AES_CTR=1, AES_CBC_MAC_128=2, AES_CBC_MAC_64=3, AES_CBC_MAC_32=4, AES_CCM_128=5,
                      AES_CCM_64=6, AES_CCM_32=7),
    "InterfaceType": dict(HOST=0, SERIAL=1, LORAWAN_ABP=2, LORAWAN_OTAA=3, D7ASP=0xD7),
    "ResponseMode": dict(RESP_MODE_NO=0, RESP_MODE_ALL=1, RESP_MODE_ANY=2, RESP_MODE_NO_RPT=4, RESP_MODE_ON_ERROR=5,
                         RESP_MODE_PREFERRED=6),
    "RetryMode": dict(RETRY_MODE_NO=0),
    "QueryType": dict(NON_VOID_CHECK=0, ARITH_COMP_WITH_ZERO=1, ARITH_COMP_WITH_VALUE=2, ARITH_COMP_BETWEEN_FILES=3,
                      RANGE_COMP=4, STRING_TOKEN=7),
    "ArithComparisonType": dict(INEQUALITY=0, EQUALITY=1, LESS_THAN=2, LESS_THAN_OR_EQUAL_TO=3, GREATER_THAN=4,
                                GREATER_THAN_OR_EQUAL_TO=5),
    "ActionCondition": dict(LIST=0, READ=1, WRITE=2, WRITE_FLUSH=3),
    "StorageClass": dict(TRANSIENT=0, VOLATILE=1, RESTORABLE=2, PERMANENT=3),
    "ChannelCoding": dict(PN9=0, RFU=1, FEC_PN9=2, CW=3),
    "ChannelClass": dict(LO_RATE=0, LORA=1, NORMAL_RATE=2, HI_RATE=3),
    "ChannelBand": dict(NOT_IMPL=0, BAND_433=2, BAND_868=3, BAND_915=4),
    "Bandwidth": dict(kHz25=1, kHz200=0),
    "EngineeringModeMode": dict(ENGINEERING_MODE_MODE_OFF=0, ENGINEERING_MODE_MODE_CONT_TX=1,
                                ENGINEERING_MODE_MODE_TRANSIENT_TX=2, ENGINEERING_MODE_MODE_PER_RX=3,
                                ENGINEERING_MODE_MODE_PER_TX=4),
}
BYVAL = {e: {v: n for n, v in m.items()} for e, m in ENUM.items()}


def E(e, n):
    return {"e": e, "n": n}


def val(m):
    return ENUM[m["e"]][m["n"]]


OPCODES = dict(NoOperation=0, ReadFileData=1, ReadFileHeader=2, WriteFileData=4, WriteFileHeader=6, BreakQuery=9,
               CreateNewFile=17, ReturnFileData=32, ReturnFileHeader=33, InterfaceStatus=34, TagResponse=35, Forward=50,
               IndirectForward=51, TagRequest=52)


def varlen(v, w=None):
    """w: number of bytes, when not the smallest"""
    if w is not None:
        return be((w - 1) << (8 * w - 2) | v, w)
    if v < 0x40:
        return bytes([v])
    if v < 0x4000:
        return (0x4000 | v).to_bytes(2, "big")
    if v < 0x400000:
        return (0x800000 | v).to_bytes(3, "big")
    return (0xC0000000 | v).to_bytes(4, "big")


def be(v, n):
    return v.to_bytes(n, "big")


def sb(v):
    return v.to_bytes(1, "big", signed=True)


def flags(*bits):
    b = 0
    for x in bits:
        b = b << 1 | (1 if x else 0)
    return bytes([b])


def lst(xs):
    return b"".join(enc(x) for x in xs)


def enc_addressee(m):
    t = m["id_type"]["n"]
    h = bytes([val(m["id_type"]) << 4 | val(m["nls_method"]), m["access_class"]])
    if t == "NBID":
        return h + enc(m["id"])
    if t == "NOID":
        return h
    return h + be(m["id"], 2 if t == "VID" else 8)


def enc_fg(m):
    return (bytes([m["length"], m["subnet"]]) + enc(m["control"]) + bytes(m["target_address"]) + enc(m["d7anp_frame"])
            + be(m["crc16"], 2))


def enc_tp(m):
    c = m["control"]
    out = enc(c) + bytes([m["dialog_id"], m["transaction_id"]])
    if c["has_agc"]:
        out += bytes([m["agc_rx_level_i"]])
    if c["has_tl"]:
        out += enc(m["tl"])
    if c["has_te"]:
        out += enc(m["te"])
    if m["tc"] is not None:
        out += enc(m["tc"])
    return out + enc(m["alp_command"])


def enc_command(m):
    out = b""
    if m.get("generate_tag_request_action"):
        out += bytes([(0x80 if m.get("send_tag_response_when_completed", True) else 0) | 52, m["tag_id"]])
    if m.get("interface_status") is not None:
        out += enc(m["interface_status"])
    return out + lst(m["actions"])


def enc_phystatus(m):
    out = be(m["up_time"], 4) + be(m["rx_time"], 4) + be(m["tx_time"], 4) + be(m["tx_duty_cycle"], 2)
    n = m["channel_status_list_length"]
    out += bytes([n])
    for i in range(n):
        out += enc(m["channel_status_identifier"][i]) + bytes([m["channel_noise_floor"][i]])
    return out


FACTORY = [("gain", "b"), ("rx_bw_low_rate", 4), ("rx_bw_normal_rate", 4), ("rx_bw_high_rate", 4),
           ("bitrate_lo_rate", 4), ("fdev_lo_rate", 4), ("bitrate_normal_rate", 4), ("fdev_normal_rate", 4),
           ("bitrate_hi_rate", 4), ("fdev_hi_rate", 4), ("preamble_size_lo_rate", 1), ("preamble_size_normal_rate", 1),
           ("preamble_size_hi_rate", 1), ("preamble_detector_size_lo_rate", 1),
           ("preamble_detector_size_normal_rate", 1), ("preamble_detector_size_hi_rate", 1),
           ("preamble_tol_lo_rate", 1), ("preamble_tol_normal_rate", 1), ("preamble_tol_hi_rate", 1),
           ("rssi_smoothing", "s"), ("rssi_offset", "b"), ("lora_bw", 4), ("lora_SF", 1), ("gaussian", 1),
           ("paramp", 2)]


def smoothing_register(samples):
    return (samples - 1).bit_length() - 1


def enc_factory(m):
    out = b""
    for name, k in FACTORY:
        v = m[name]
        if k == "b":
            out += sb(v)
        elif k == "s":
            out += bytes([smoothing_register(v)])
        else:
            out += be(v, k)
    return out


def text(v):
    return v["str"] if isinstance(v, dict) else v


ENC = {
    "CT": lambda m: bytes([m["exp"] << 5 | m["mant"]]),
    "Length": lambda m: varlen(m["value"], m.get("w")),
    "Offset": lambda m: bytes([m["id"]]) + enc(m["offset"]),
    "Data": lambda m: enc(m["offset"]) + varlen(len(m["data"]), m.get("w")) + bytes(m["data"]),
    "DataRequest": lambda m: enc(m["offset"]) + (enc(m["length"]) if isinstance(m["length"], dict)
                                                else varlen(m["length"], m.get("w"))),
    "FileIdOperand": lambda m: bytes([m["file_id"]]),
    "FileHeaderOperand": lambda m: bytes([m["file_id"]]) + enc(m["file_header"]),
    "IndirectInterfaceOperand": lambda m: bytes([m["interface_file_id"]]) + enc(m["interface_configuration_overload"]),
    "InterfaceConfiguration": lambda m: bytes([val(m["interface_id"])]) + enc(m["interface_configuration"]),
    "InterfaceStatusOperand": lambda m: bytes([m["interface_id"], len(enc(m["interface_status"]))])
    + enc(m["interface_status"]),
    "ABP": lambda m: flags(m["adr_enabled"], m["request_ack"], 0) + bytes([m["app_port"], m["data_rate"]])
    + be(m["dev_addr"], 4) + be(m["netw_id"], 4),
    "OTAA": lambda m: flags(m["adr_enabled"], m["request_ack"], 0) + bytes([m["app_port"], m["data_rate"]]),
    "ArithQueryParams": lambda m: bytes([(8 if m["signed_data_type"] else 0) | val(m["comp_type"])]),
    "QueryOperand": lambda m: bytes([val(m["type"]) << 5 | (16 if m["mask_present"] else 0) | enc(m["params"])[0]])
    + enc(m["compare_length"]) + bytes(m["compare_value"]) + enc(m["file_a_offset"]),
    "TagId": lambda m: bytes([m["tag_id"]]),
    "RegularAction": lambda m: bytes([(0x80 if m["group"] else 0) | (0x40 if m["resp"] else 0)
                                      | OPCODES[m["operation"]["t"]]]) + enc(m["operation"]),
    "ForwardAction": lambda m: bytes([(0x40 if m["resp"] else 0) | 50]) + enc(m["operation"]),
    "IndirectForwardAction": lambda m: bytes([(0x80 if m["overload"] else 0) | (0x40 if m["resp"] else 0) | 51])
    + enc(m["operation"]),
    "TagRequestAction": lambda m: bytes([(0x80 if m["respond_when_completed"] else 0) | 52]) + enc(m["operation"]),
    "TagResponseAction": lambda m: bytes([(0x80 if m["eop"] else 0) | (0x40 if m["error"] else 0) | 35])
    + enc(m["operation"]),
    "StatusAction": lambda m: bytes([m["status_operand_extension"] << 6 | 34]) + enc(m["operation"]),
    "Command": enc_command,
    "QoS": lambda m: bytes([(0x80 if m["stop_on_err"] else 0) | (0x40 if m["record"] else 0)
                            | val(m["retry_mod"]) << 3 | val(m["resp_mod"])]),
    "Configuration": lambda m: enc(m["qos"]) + enc(m["dorm_to"]) + enc(m["addressee"]),
    "Addressee": enc_addressee,
    "Status": lambda m: enc(m["channel_id"]) + bytes([m["rx_level"], m["link_budget"], m["target_rx_level"]])
    + flags(m["nls"], m["missed"], m["retry"], m["unicast"], 0, 0, 0, 0) + bytes([m["fifo_token"], m["seq_nr"]])
    + enc(m["response_to"]) + enc(m["addressee"]),
    "NpControl": lambda m: bytes([(0x80 if m["has_no_origin_access_id"] else 0) | (0x40 if m["has_hopping"] else 0)
                                  | val(m["origin_id_type"]) << 4 | val(m["nls_method"])]),
    "NpFrame": lambda m: enc(m["control"]) + bytes([m["origin_access_class"]]) + bytes(m["origin_access_id"])
    + enc(m["d7atp_frame"]),
    "TpControl": lambda m: flags(m["is_dialog_start"], 0, m["has_tl"], m["has_te"], m["is_ack_requested"],
                                 m["is_ack_not_void"], m["is_ack_record_requested"], m["has_agc"]),
    "TpFrame": enc_tp,
    "FgControl": lambda m: bytes([val(m["id_type"]) << 6 | m["eirp_index"]]),
    "FgFrame": enc_fg,
    "BgControl": lambda m: bytes([val(m["id_type"]) << 6 | m["tag"]]),
    "BgFrame": lambda m: bytes([m["subnet"]]) + enc(m["control"]) + be(m["payload"], 2) + be(m["crc16"], 2),
    "SubProfile": lambda m: bytes([m["subband_bitmap"]]) + enc(m["scan_automation_period"]),
    "SubBand": lambda m: be(m["channel_index_start"], 2) + be(m["channel_index_end"], 2) + sb(m["eirp"])
    + bytes([m["cca"], m["duty"]]),
    "AccessProfile": lambda m: enc(m["channel_header"]) + lst(m["sub_profiles"]) + lst(m["sub_bands"]),
    "ChannelHeader": lambda m: bytes([val(m["channel_band"]) << 4 | val(m["channel_class"]) << 2
                                      | val(m["channel_coding"])]),
    "ChannelID": lambda m: enc(m["channel_header"]) + be(m["channel_index"], 2),
    "ChannelStatusIdentifier": lambda m: be(val(m["channel_band"]) << 13 | val(m["channel_bandwidth"]) << 12
                                            | m["channel_index"], 2),
    "FilePermissions": lambda m: flags(m["encrypted"], m["executeable"], m["user_readable"], m["user_writeable"],
                                       m["user_executeable"], m["guest_readable"], m["guest_writeable"],
                                       m["guest_executeable"]),
    "FileProperties": lambda m: bytes([(0x80 if m["act_enabled"] else 0) | val(m["act_condition"]) << 4
                                       | val(m["storage_class"])]),
    "FileHeader": lambda m: enc(m["permissions"]) + enc(m["properties"])
    + bytes([m["alp_command_file_id"], m["interface_file_id"]]) + be(m["file_size"], 4) + be(m["allocated_size"], 4),
    "UidFile": lambda m: be(m["uid"], 8),
    "VidFile": lambda m: be(m["vid"], 2) + bytes([m["control"]]),
    "FirmwareVersionFile": lambda m: bytes([m["d7a_protocol_version_major"], m["d7a_protocol_version_minor"],
                                            m["filesystem_version_major"], m["filesystem_version_minor"]])
    + text(m["application_name"]).encode("ascii").ljust(6) + text(m["git_sha1"]).encode("ascii").ljust(7),
    "EngineeringModeFile": lambda m: bytes([val(m["mode"]), m["flags"], m["timeout"]]) + enc(m["channel_id"])
    + sb(m["eirp"]) + b"\0\0",
    "FactorySettingsFile": enc_factory,
    "DllConfigFile": lambda m: bytes([m["active_access_class"], 0, 0, m["lq_filter"], m["nf_ctrl"],
                                      m["rx_nf_method_parameter"], m["tx_nf_method_parameter"]]),
    "DllStatusFile": lambda m: bytes([m["last_rx_packet_level"], m["last_rx_packet_link_budget"], m["noise_floor"]])
    + enc(m["channel_header"]) + be(m["channel_index"], 2) + be(m["scan_timeout_ratio"], 2) + be(m["scan_count"], 4)
    + be(m["scan_timeout_count"], 4),
    "PhyStatusFile": enc_phystatus,
    "RootAuthenticationKeyFile": lambda m: m["key"].to_bytes(16, "little") + bytes(24),
    "UserAuthenticationKeyFile": lambda m: m["key"].to_bytes(16, "little") + bytes(24),
    "SecurityKeyFile": lambda m: m["key"].to_bytes(16, "little"),
    "AccessProfileFile": lambda m: enc(m["access_profile"]),
    "InterfaceConfigurationFile": lambda m: enc(m["interface_configuration"]),
}


def enc(m):
    if m is None:
        return b""
    t = m["t"]
    if t in ENC:
        return ENC[t](m)
    if t in OPCODES:
        return enc(m.get("operand"))
    raise KeyError(t)


# ---------------------------------------------------------------- what dump() must show for a built model

DEFAULT_FALSE = ("execution_completed",)


def strip(m):
    """without the hints for non-minimal lengths"""
    if isinstance(m, list):
        return [strip(x) for x in m]
    if isinstance(m, dict):
        return {k: strip(v) for k, v in m.items() if k != "w"}
    return m


def shown(m):
    """the model a built object must present through its public attributes"""
    if isinstance(m, list):
        return [shown(x) for x in m]
    if not isinstance(m, dict) or "t" not in m:
        return m
    d = {k: shown(v) for k, v in m.items()}
    t = m["t"]
    if t == "DataRequest":
        d["length"] = {"t": "Length", "value": m["length"]}
    elif t == "FactorySettingsFile":
        d["rssi_smoothing"] = smoothing_register(m["rssi_smoothing"])
    elif t == "Command":
        acts, tag, resp, done, err, ist = [], m.get("tag_id"), m.get("send_tag_response_when_completed", True), False, None, None
        for a in d["actions"]:
            if a["t"] == "TagRequestAction":
                tag, resp = a["operation"]["operand"]["tag_id"], a["respond_when_completed"]
            elif a["t"] == "TagResponseAction":
                tag, done, err = a["operation"]["operand"]["tag_id"], a["eop"], a["error"]
            elif a["t"] == "StatusAction":
                ist = a
            else:
                acts.append(a)
        d = {"t": "Command", "actions": acts, "tag_id": tag, "send_tag_response_when_completed": resp,
             "interface_status": ist, "execution_completed": done, "completed_with_error": err}
    return d


# ---------------------------------------------------------------- reference decoder

class Reject(Exception):
    pass


class Short(Reject):
    """ran out of bytes"""


class Unspec(Exception):
    pass


class Dec:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def u(self, n=1):
        if self.p + n > len(self.d):
            raise Short()
        v = int.from_bytes(self.d[self.p:self.p + n], "big")
        self.p += n
        return v

    def s1(self):
        v = self.u()
        return v - 256 if v > 127 else v

    def raw(self, n):
        if self.p + n > len(self.d):
            raise Short()
        v = list(self.d[self.p:self.p + n])
        self.p += n
        return v

    def enum(self, e, v):
        if v not in BYVAL[e]:
            raise Reject("%s %d" % (e, v))
        return {"e": e, "n": BYVAL[e][v]}

    def ct(self):
        b = self.u()
        return {"t": "CT", "exp": b >> 5, "mant": b & 31}

    def length(self):
        b = self.u()
        n = b >> 6
        v = b & 63
        for _ in range(n):
            v = v << 8 | self.u()
        return {"t": "Length", "value": v}

    def offset(self):
        return {"t": "Offset", "id": self.u(), "offset": self.length()}

    def data(self):
        off = self.offset()
        n = self.length()["value"]
        return {"t": "Data", "data": self.raw(n), "offset": off}

    def header(self):
        p = self.u()
        b = lambda i: bool(p >> i & 1)
        perm = {"t": "FilePermissions", "encrypted": b(7), "executeable": b(6), "user_readable": b(5),
                "user_writeable": b(4), "user_executeable": b(3), "guest_readable": b(2), "guest_writeable": b(1),
                "guest_executeable": b(0)}
        q = self.u()
        prop = {"t": "FileProperties", "act_enabled": bool(q >> 7), "act_condition": self.enum("ActionCondition", q >> 4 & 7),
                "storage_class": self.enum("StorageClass", q & 3)}
        return {"t": "FileHeader", "permissions": perm, "properties": prop, "alp_command_file_id": self.u(),
                "interface_file_id": self.u(), "file_size": self.u(4), "allocated_size": self.u(4)}

    def addressee(self):
        b = self.u()
        it = self.enum("IdType", b >> 4 & 3)
        nls = self.enum("NlsMethod", b & 15)
        ac = self.u()
        n = it["n"]
        i = self.ct() if n == "NBID" else None if n == "NOID" else self.u(2 if n == "VID" else 8)
        return {"t": "Addressee", "access_class": ac, "id_type": it, "id": i, "nls_method": nls}

    def qos(self):
        b = self.u()
        return {"t": "QoS", "stop_on_err": bool(b >> 7), "record": bool(b >> 6 & 1),
                "retry_mod": self.enum("RetryMode", b >> 3 & 7), "resp_mod": self.enum("ResponseMode", b & 7)}

    def configuration(self):
        return {"t": "Configuration", "qos": self.qos(), "dorm_to": self.ct(), "addressee": self.addressee()}

    def channel_header(self):
        b = self.u()
        return {"t": "ChannelHeader", "channel_band": self.enum("ChannelBand", b >> 4 & 7),
                "channel_class": self.enum("ChannelClass", b >> 2 & 3), "channel_coding": self.enum("ChannelCoding", b & 3)}

    def channel_id(self):
        return {"t": "ChannelID", "channel_header": self.channel_header(), "channel_index": self.u(2)}

    def status(self):
        d = {"t": "Status", "channel_id": self.channel_id(), "rx_level": self.u(), "link_budget": self.u(),
             "target_rx_level": self.u()}
        b = self.u()
        d.update(nls=bool(b >> 7), missed=bool(b >> 6 & 1), retry=bool(b >> 5 & 1), unicast=bool(b >> 4 & 1),
                 fifo_token=self.u(), seq_nr=self.u(), response_to=self.ct(), addressee=self.addressee())
        return d

    def lorawan(self, abp):
        b = self.u()
        d = {"t": "ABP" if abp else "OTAA", "adr_enabled": bool(b >> 2 & 1), "request_ack": bool(b >> 1 & 1),
             "app_port": self.u(), "data_rate": self.u()}
        if abp:
            d.update(dev_addr=self.u(4), netw_id=self.u(4))
        return d

    def query(self):
        b = self.u()
        t = self.enum("QueryType", b >> 5)
        if t["n"] != "ARITH_COMP_WITH_VALUE" or b >> 4 & 1:
            raise Reject("query")
        params = {"t": "ArithQueryParams", "signed_data_type": bool(b >> 3 & 1),
                  "comp_type": self.enum("ArithComparisonType", b & 7)}
        cl = self.length()
        return {"t": "QueryOperand", "type": t, "mask_present": False, "params": params, "compare_length": cl,
                "compare_value": self.raw(cl["value"]), "file_a_offset": self.offset()}

    def action(self):
        h = self.u()
        b7, b6, op = bool(h >> 7), bool(h >> 6 & 1), h & 63
        reg = lambda name, operand: {"t": "RegularAction", "group": b7, "resp": b6,
                                     "operation": {"t": name, "operand": operand}}
        if op == 1:
            off = self.offset()
            return reg("ReadFileData", {"t": "DataRequest", "length": self.length(), "offset": off})
        if op == 4:
            return reg("WriteFileData", self.data())
        if op == 9:
            return reg("BreakQuery", self.query())
        if op in (17, 33):
            fid = self.u()
            return reg("CreateNewFile" if op == 17 else "ReturnFileHeader",
                       {"t": "FileHeaderOperand", "file_id": fid, "file_header": self.header()})
        if op == 32:
            return reg("ReturnFileData", self.data())
        if op == 34:
            if b7 or not b6:
                raise Reject("status extension")
            iid = self.u()
            n = self.u()
            if iid not in (0, 1, 0xD7):
                raise Reject("interface status of interface %d" % iid)
            st = None
            if n and iid == 0xD7:
                p = self.p
                st = self.status()
                if self.p - p != n:
                    raise Unspec("interface status length")
            elif n:
                raise Unspec("interface status length")
            return {"t": "StatusAction", "status_operand_extension": 1,
                    "operation": {"t": "InterfaceStatus",
                                  "operand": {"t": "InterfaceStatusOperand", "interface_id": iid, "interface_status": st}}}
        if op == 35:
            return {"t": "TagResponseAction", "eop": b7, "error": b6,
                    "operation": {"t": "TagResponse", "operand": {"t": "TagId", "tag_id": self.u()}}}
        if op == 50:
            if b7:
                raise Reject("forward rfu")
            it = self.enum("InterfaceType", self.u())
            if it["n"] == "HOST":
                raise Reject("forward to host")
            cfg = (self.configuration() if it["n"] == "D7ASP" else self.lorawan(True) if it["n"] == "LORAWAN_ABP"
                   else self.lorawan(False) if it["n"] == "LORAWAN_OTAA" else None)
            return {"t": "ForwardAction", "resp": b6,
                    "operation": {"t": "Forward", "operand": {"t": "InterfaceConfiguration", "interface_id": it,
                                                              "interface_configuration": cfg}}}
        if op == 51:
            fid = self.u()
            ov = self.addressee() if b7 else None
            return {"t": "IndirectForwardAction", "overload": b7, "resp": b6,
                    "operation": {"t": "IndirectForward",
                                  "operand": {"t": "IndirectInterfaceOperand", "interface_file_id": fid,
                                              "interface_configuration_overload": ov}}}
        if op == 52:
            if b6:
                raise Reject("tag request rfu")
            return {"t": "TagRequestAction", "respond_when_completed": b7,
                    "operation": {"t": "TagRequest", "operand": {"t": "TagId", "tag_id": self.u()}}}
        raise Reject("opcode %d" % op)

    def command(self, n):
        """n bytes from here"""
        end = self.p + n
        if n < 0:
            raise Reject("negative length")
        acts = []
        while self.p < end:
            acts.append(self.action())
        if self.p != end:
            raise Reject("overrun")
        return self.assemble(acts)

    @staticmethod
    def assemble(acts):
        out, tags, ist = [], 0, None
        d = {"t": "Command", "tag_id": None, "send_tag_response_when_completed": True, "interface_status": None,
             "execution_completed": False, "completed_with_error": None}
        for a in acts:
            if a["t"] == "StatusAction":
                if d["interface_status"] is not None:
                    raise Reject("two interface statuses")
                d["interface_status"] = a
            elif a["t"] in ("TagRequestAction", "TagResponseAction"):
                tags += 1
                if tags > 1:
                    raise Reject("two tags")
                d["tag_id"] = a["operation"]["operand"]["tag_id"]
                if a["t"] == "TagRequestAction":
                    d["send_tag_response_when_completed"] = a["respond_when_completed"]
                else:
                    d["execution_completed"], d["completed_with_error"] = a["eop"], a["error"]
            else:
                out.append(a)
        d["actions"] = out
        return d

    def np_control(self):
        b = self.u()
        return {"t": "NpControl", "has_no_origin_access_id": bool(b >> 7), "has_hopping": bool(b >> 6 & 1),
                "origin_id_type": self.enum("IdType", b >> 4 & 3), "nls_method": self.enum("NlsMethod", b & 15)}

    def tp_control(self):
        b = self.u()
        g = lambda i: bool(b >> i & 1)
        return {"t": "TpControl", "is_dialog_start": g(7), "has_tl": g(5), "has_te": g(4), "is_ack_requested": g(3),
                "is_ack_not_void": g(2), "is_ack_record_requested": g(1), "has_agc": g(0)}

    def tp_frame(self, n):
        start = self.p
        c = self.tp_control()
        d = {"t": "TpFrame", "control": c, "dialog_id": self.u(), "transaction_id": self.u(), "agc_rx_level_i": 10,
             "tl": None, "te": None, "tc": None, "ack_template": None}
        if c["is_ack_not_void"] or c["is_ack_record_requested"]:
            raise Reject("not implemented")
        if c["has_agc"]:
            d["agc_rx_level_i"] = self.u()
            if d["agc_rx_level_i"] > 31:
                raise Reject("agc")
        if c["has_tl"]:
            d["tl"] = self.ct()
        if c["has_te"]:
            d["te"] = self.ct()
        if c["is_ack_requested"] and c["is_dialog_start"]:
            d["tc"] = self.ct()
        left = n - (self.p - start)
        if left < 0:
            raise Unspec("length")
        try:
            d["alp_command"] = self.command(left)
        except Reject as e:
            if str(e) == "overrun":
                raise Unspec("length")
            raise
        return d

    def np_frame(self, n):
        start = self.p
        c = self.np_control()
        ac = self.u()
        if c["has_hopping"] or c["nls_method"]["n"] != "NONE":
            raise Reject("not implemented")
        oid = []
        if not c["has_no_origin_access_id"]:
            k = c["origin_id_type"]["n"]
            if k not in ("VID", "UID"):
                raise Reject("origin id")
            oid = self.raw(2 if k == "VID" else 8)
        return {"t": "NpFrame", "control": c, "origin_access_class": ac, "origin_access_id": oid,
                "d7atp_frame": self.tp_frame(n - (self.p - start))}

    def fg_frame(self):
        n = self.u()
        subnet = self.u()
        b = self.u()
        ctl = {"t": "FgControl", "id_type": self.enum("IdType", b >> 6), "eirp_index": b & 63}
        k = ctl["id_type"]["n"]
        addr = self.raw(2 if k == "VID" else 8 if k == "UID" else 0)
        np = self.np_frame(n - 4 - len(addr))
        return {"t": "FgFrame", "length": n, "subnet": subnet, "control": ctl, "target_address": addr,
                "d7anp_frame": np, "crc16": self.u(2)}

    def bg_frame(self):
        s = self.u()
        b = self.u()
        return {"t": "BgFrame", "subnet": s, "control": {"t": "BgControl", "id_type": self.enum("IdType", b >> 6),
                                                         "tag": b & 63}, "payload": self.u(2), "crc16": self.u(2)}

    def subband(self):
        return {"t": "SubBand", "channel_index_start": self.u(2), "channel_index_end": self.u(2), "eirp": self.s1(),
                "cca": self.u(), "duty": self.u()}

    def subprofile(self):
        return {"t": "SubProfile", "subband_bitmap": self.u(), "scan_automation_period": self.ct()}

    def access_profile(self):
        return {"t": "AccessProfile", "channel_header": self.channel_header(),
                "sub_profiles": [self.subprofile() for _ in range(4)], "sub_bands": [self.subband() for _ in range(8)]}

    def csi(self):
        v = self.u(2)
        i = v & 0x7FF
        d = {"t": "ChannelStatusIdentifier", "channel_band": self.enum("ChannelBand", v >> 13),
             "channel_bandwidth": self.enum("Bandwidth", v >> 12 & 1), "channel_index": i}
        if i > 1039:
            raise Reject("channel index")
        return d

    # system files: (content) -> model as shown
    def file(self, cls):
        u = self.u
        if cls == "UidFile":
            return {"t": cls, "uid": u(8)}
        if cls == "VidFile":
            return {"t": cls, "vid": u(2), "control": u()}
        if cls == "FirmwareVersionFile":
            d = {"t": cls, "d7a_protocol_version_major": u(), "d7a_protocol_version_minor": u(),
                 "filesystem_version_major": u(), "filesystem_version_minor": u()}
            a, b = bytes(self.raw(6)), bytes(self.raw(7))
            if max(a + b) > 127:
                raise Reject("ascii")
            d["application_name"], d["git_sha1"] = {"str": a.decode("ascii")}, {"str": b.decode("ascii")}
            return d
        if cls == "EngineeringModeFile":
            return {"t": cls, "mode": self.enum("EngineeringModeMode", u()), "flags": u(), "timeout": u(),
                    "channel_id": self.channel_id(), "eirp": self.s1()}
        if cls == "FactorySettingsFile":
            d = {"t": cls}
            for name, k in FACTORY:
                d[name] = self.s1() if k == "b" else u() if k == "s" else u(k)
            if not 6 <= d["lora_SF"] <= 12 or d["gaussian"] > 3 or not -126 <= d["rssi_offset"] <= 125:
                raise Reject("range")
            if d["rssi_smoothing"] > 7:
                raise Unspec("smoothing register")
            return d
        if cls == "DllConfigFile":
            ac = u()
            u(2)
            return {"t": cls, "active_access_class": ac, "lq_filter": u(), "nf_ctrl": u(),
                    "rx_nf_method_parameter": u(), "tx_nf_method_parameter": u()}
        if cls == "DllStatusFile":
            return {"t": cls, "last_rx_packet_level": u(), "last_rx_packet_link_budget": u(), "noise_floor": u(),
                    "channel_header": self.channel_header(), "channel_index": u(2), "scan_timeout_ratio": u(2),
                    "scan_count": u(4), "scan_timeout_count": u(4)}
        if cls == "PhyStatusFile":
            d = {"t": cls, "up_time": u(4), "rx_time": u(4), "tx_time": u(4), "tx_duty_cycle": u(2)}
            n = u()
            d["channel_status_list_length"] = n
            ids, nf = [], []
            for _ in range(n):
                ids.append(self.csi())
                nf.append(u())
            if d["tx_duty_cycle"] > 1000:
                raise Reject("duty cycle")
            d.update(channel_status_identifier=ids, channel_noise_floor=nf)
            return d
        if cls in ("RootAuthenticationKeyFile", "UserAuthenticationKeyFile", "SecurityKeyFile"):
            k = int.from_bytes(bytes(self.raw(16)), "little")
            if cls != "SecurityKeyFile":
                self.raw(24)
            return {"t": cls, "key": k}
        if cls == "AccessProfileFile":
            return {"t": cls, "access_specifier": 0, "access_profile": self.access_profile()}
        raise KeyError(cls)


def decode_command(data, n=None):
    d = Dec(data)
    m = d.command(len(data) if n is None else n)
    return m


def crc16(data, crc=0xFFFF):
    for b in data:
        crc ^= b << 8
        for _ in range(8):
            crc = (crc << 1 ^ 0x1021) & 0xFFFF if crc & 0x8000 else crc << 1
    return crc


_T = []
for _i in range(256):
    _T.append(crc16(bytes([_i]), 0))


def crcf(data):
    c = 0xFFFF
    for b in data:
        c = (c << 8 & 0xFFFF) ^ _T[c >> 8 ^ b]
    return c


def serial_frame(payload, counter=1, mt=1, version=0, sync=0xC0, length=None, crc=None):
    c = crcf(payload) if crc is None else crc
    return bytes([sync, version, counter, mt, len(payload) if length is None else length, c >> 8, c & 255]) + payload


# system file registry
SYS = {}
for _n, _i, _len in [("UidFile", 0, 8), ("FactorySettingsFile", 1, 56), ("FirmwareVersionFile", 2, 17), (None, 3, 19),
                     (None, 4, 9), ("EngineeringModeFile", 5, 9), ("VidFile", 6, 3), (None, 7, 0), (None, 8, 9),
                     ("PhyStatusFile", 9, 45), ("DllConfigFile", 10, 7), ("DllStatusFile", 11, 16), (None, 12, 1),
                     (None, 13, 5), ("SecurityKeyFile", 14, 16), (None, 15, 4), (None, 16, 20), (None, 17, 1),
                     (None, 18, 6), (None, 19, 10), (None, 20, 0), (None, 21, 0), (None, 22, 0), (None, 23, 1),
                     ("RootAuthenticationKeyFile", 24, 40), ("UserAuthenticationKeyFile", 25, 40)]:
    SYS[_i] = (_n, _len)
for _i in range(26, 32):
    SYS[_i] = (None, 0)
for _i in range(32, 47):
    SYS[_i] = ("AccessProfileFile", 65)
SYSNAMES = {0x2F: None}


class Receiver:
    """reference serial receiver"""
    def __init__(self, skip=False):
        self.buf, self.down, self.errc, self.skip = b"", 0, 0, skip
        self.frames, self.errors = 0, 0

    def drop(self):
        i = self.buf.find(b"\xc0", 1)
        n = len(self.buf) if i < 0 else i
        self.buf = self.buf[n:]
        self.errors += 1
        return n

    def payload(self, mt, p):
        if mt == 5:
            if not p:
                raise Reject("empty")
            return {"int": p[0], "mt": mt}
        if mt == 4 or self.skip:
            return {"raw": p.hex(), "mt": mt}
        return {"cmd": decode_command(p), "mt": mt}

    def feed(self, data):
        self.buf += data
        msgs, skipped, parsed = [], [], 0
        while self.buf:
            b = self.buf
            if b[0] != 0xC0 or len(b) > 1 and b[1] != 0:
                skipped.append(self.drop())
                continue
            if len(b) < 7 or len(b) < 7 + b[4]:
                break
            if b[2] != (self.down + 1) % 256:
                self.errc += 1
            self.down = b[2]
            p = b[7:7 + b[4]]
            try:
                if crcf(p) != b[5] << 8 | b[6]:
                    raise Reject("crc")
                m = self.payload(b[3], p)
            except Reject:
                skipped.append(self.drop())
                continue
            msgs.append(m)
            parsed += 7 + len(p)
            self.frames += 1
            self.buf = b[7 + len(p):]
        return {"msgs": msgs, "skipped": skipped, "parsed": parsed * 8, "buffer": len(self.buf) * 8, "left": self.buf.hex(),
                "down": self.down, "errc": self.errc}
