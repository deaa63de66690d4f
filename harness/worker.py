# Python 2.7 (Jython).  Executes the code under test (imported from REPO) for the Hypothesis driver.
# Requests and replies are one JSON object per line on stdin / the original stdout.
import sys, os, json, importlib, random, types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUT_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "shim"))
sys.path.insert(1, REPO)

_out = os.fdopen(os.dup(sys.stdout.fileno()), "w") if hasattr(os, "dup") else sys.stdout


class _Null(object):
  def write(self, s): pass
  def flush(self): pass


sys.stdout = _Null()
import fastcerb
if os.environ.get("SUT_REAL_CERBERUS") != "1":
  fastcerb.install()

import logging
logging.disable(logging.CRITICAL)
from bitstring import ConstBitStream
from enum import Enum

# tag -> (module, class, [(json field, constructor keyword or None, attribute or None)])
def F(*names):
  out = []
  for n in names:
    if isinstance(n, tuple): out.append(n)
    else: out.append((n, n, n))
  return out

OPND = "d7a.alp.operands."
OPR = "d7a.alp.operations."
SF = "d7a.system_files."
CLASSES = {
  "CT": ("d7a.types.ct", "CT", F("exp", "mant")),
  "Length": (OPND + "length", "Length", F("value")),
  "Offset": (OPND + "offset", "Offset", F("id", "offset")),
  "Data": (OPND + "file", "Data", F("data", "offset")),
  "DataRequest": (OPND + "file", "DataRequest", F("length", "offset")),
  "FileIdOperand": (OPND + "file", "FileIdOperand", F("file_id")),
  "FileHeaderOperand": (OPND + "file_header", "FileHeaderOperand", F("file_id", "file_header")),
  "IndirectInterfaceOperand": (OPND + "indirect_interface_operand", "IndirectInterfaceOperand",
                               F("interface_file_id", "interface_configuration_overload")),
  "InterfaceConfiguration": (OPND + "interface_configuration", "InterfaceConfiguration",
                             F("interface_id", "interface_configuration")),
  "InterfaceStatusOperand": (OPND + "interface_status", "InterfaceStatusOperand",
                             F("interface_id", "interface_status")),
  "ABP": (OPND + "lorawan_interface_configuration_abp", "LoRaWANInterfaceConfigurationABP",
          F("adr_enabled", "request_ack", "app_port", "data_rate", "dev_addr", "netw_id")),
  "OTAA": (OPND + "lorawan_interface_configuration_otaa", "LoRaWANInterfaceConfigurationOTAA",
           F("adr_enabled", "request_ack", "app_port", "data_rate")),
  "ArithQueryParams": (OPND + "query", "ArithQueryParams", F("signed_data_type", "comp_type")),
  "QueryOperand": (OPND + "query", "QueryOperand",
                   F("type", "mask_present", "params", "compare_length", "compare_value", "file_a_offset")),
  "TagId": (OPND + "tag_id", "TagId", F("tag_id")),
  "NoOperation": (OPR + "nop", "NoOperation", F(("operand", None, "operand"))),
  "ReadFileData": (OPR + "requests", "ReadFileData", F("operand")),
  "ReadFileHeader": (OPR + "requests", "ReadFileHeader", F("operand")),
  "WriteFileData": (OPR + "write_operations", "WriteFileData", F("operand")),
  "WriteFileHeader": (OPR + "write_operations", "WriteFileHeader", F("operand")),
  "CreateNewFile": (OPR + "file_management", "CreateNewFile", F("operand")),
  "ReturnFileData": (OPR + "responses", "ReturnFileData", F("operand")),
  "ReturnFileHeader": (OPR + "responses", "ReturnFileHeader", F("operand")),
  "BreakQuery": (OPR + "break_query", "BreakQuery", F("operand")),
  "Forward": (OPR + "forward", "Forward", F("operand")),
  "IndirectForward": (OPR + "indirect_forward", "IndirectForward", F("operand")),
  "InterfaceStatus": (OPR + "status", "InterfaceStatus", F("operand")),
  "TagRequest": (OPR + "tag_request", "TagRequest", F("operand")),
  "TagResponse": (OPR + "tag_response", "TagResponse", F("operand")),
  "RegularAction": ("d7a.alp.regular_action", "RegularAction", F("group", "resp", "operation")),
  "ForwardAction": ("d7a.alp.forward_action", "ForwardAction", F("resp", "operation")),
  "IndirectForwardAction": ("d7a.alp.indirect_forward_action", "IndirectForwardAction",
                            F("overload", "resp", "operation")),
  "TagRequestAction": ("d7a.alp.tag_request_action", "TagRequestAction", F("respond_when_completed", "operation")),
  "TagResponseAction": ("d7a.alp.tag_response_action", "TagResponseAction", F("eop", "error", "operation")),
  "StatusAction": ("d7a.alp.status_action", "StatusAction", F("status_operand_extension", "operation")),
  "Action": ("d7a.alp.action", "Action", F("operation")),
  "Command": ("d7a.alp.command", "Command",
              F("actions", ("generate_tag_request_action", "generate_tag_request_action", None), "tag_id",
                "send_tag_response_when_completed", ("interface_status", None, "interface_status"),
                ("execution_completed", None, "execution_completed"),
                ("completed_with_error", None, "completed_with_error"))),
  "QoS": ("d7a.sp.qos", "QoS", F("resp_mod", "retry_mod", "stop_on_err", "record")),
  "Configuration": ("d7a.sp.configuration", "Configuration", F("qos", "dorm_to", "addressee")),
  "Addressee": ("d7a.d7anp.addressee", "Addressee", F("access_class", "id_type", "id", "nls_method")),
  "Status": ("d7a.sp.status", "Status",
             F("channel_id", "rx_level", "link_budget", "target_rx_level", "nls", "missed", "retry", "unicast",
               "fifo_token", "seq_nr", "response_to", "addressee")),
  "NpControl": ("d7a.d7anp.control", "Control",
                F("has_no_origin_access_id", "has_hopping", "nls_method", "origin_id_type")),
  "NpFrame": ("d7a.d7anp.frame", "Frame", F("control", "origin_access_class", "origin_access_id", "d7atp_frame")),
  "TpControl": ("d7a.d7atp.control", "Control",
                F("is_dialog_start", "has_tl", "has_te", "is_ack_requested", "is_ack_not_void",
                  "is_ack_record_requested", "has_agc")),
  "TpFrame": ("d7a.d7atp.frame", "Frame",
              F("control", "dialog_id", "transaction_id", "alp_command", "agc_rx_level_i", "tl", "te", "tc",
                "ack_template")),
  "FgControl": ("d7a.dll.foreground_frame_control", "ForegroundFrameControl", F("id_type", "eirp_index")),
  "FgFrame": ("d7a.dll.foreground_frame", "ForegroundFrame",
              F("length", "subnet", "control", "target_address", "d7anp_frame", "crc16")),
  "BgControl": ("d7a.dll.background_frame_control", "BackgroundFrameControl", F("id_type", "tag")),
  "BgFrame": ("d7a.dll.background_frame", "BackgroundFrame", F("subnet", "control", "payload", "crc16")),
  "SubProfile": ("d7a.dll.sub_profile", "SubProfile", F("subband_bitmap", "scan_automation_period")),
  "SubBand": ("d7a.phy.subband", "SubBand",
              F("channel_index_start", "channel_index_end", "eirp", "cca", "duty")),
  "AccessProfile": ("d7a.dll.access_profile", "AccessProfile", F("channel_header", "sub_profiles", "sub_bands")),
  "ChannelHeader": ("d7a.phy.channel_header", "ChannelHeader", F("channel_coding", "channel_class", "channel_band")),
  "ChannelID": ("d7a.phy.channel_id", "ChannelID", F("channel_header", "channel_index")),
  "ChannelStatusIdentifier": ("d7a.phy.channel_status_identifier", "ChannelStatusIdentifier",
                              F("channel_band", "channel_bandwidth", "channel_index")),
  "FilePermissions": ("d7a.fs.file_permissions", "FilePermissions",
                      F("encrypted", ("executeable", "executeable", "executable"), "user_readable", "user_writeable",
                        "user_executeable", "guest_readable", "guest_writeable", "guest_executeable")),
  "FileProperties": ("d7a.fs.file_properties", "FileProperties", F("act_enabled", "act_condition", "storage_class")),
  "FileHeader": ("d7a.fs.file_header", "FileHeader",
                 F("permissions", "properties", "alp_command_file_id", "interface_file_id", "file_size",
                   "allocated_size")),
  "UidFile": (SF + "uid", "UidFile", F("uid")),
  "VidFile": (SF + "vid", "VidFile", F("vid", "control")),
  "FirmwareVersionFile": (SF + "firmware_version", "FirmwareVersionFile",
                          F("d7a_protocol_version_major", "d7a_protocol_version_minor", "filesystem_version_major",
                            "filesystem_version_minor", "application_name", "git_sha1")),
  "EngineeringModeFile": (SF + "engineering_mode", "EngineeringModeFile",
                          F("mode", "flags", "timeout", "channel_id", "eirp")),
  "FactorySettingsFile": (SF + "factory_settings", "FactorySettingsFile",
                          F("gain", "rx_bw_low_rate", "rx_bw_normal_rate", "rx_bw_high_rate", "bitrate_lo_rate",
                            "fdev_lo_rate", "bitrate_normal_rate", "fdev_normal_rate", "bitrate_hi_rate",
                            "fdev_hi_rate", "preamble_size_lo_rate", "preamble_size_normal_rate",
                            "preamble_size_hi_rate", "preamble_detector_size_lo_rate",
                            "preamble_detector_size_normal_rate", "preamble_detector_size_hi_rate",
                            "preamble_tol_lo_rate", "preamble_tol_normal_rate", "preamble_tol_hi_rate",
                            "rssi_smoothing", "rssi_offset", "lora_bw", "lora_SF", "gaussian", "paramp")),
  "DllConfigFile": (SF + "dll_config", "DllConfigFile",
                    F("active_access_class", "lq_filter", "nf_ctrl", "rx_nf_method_parameter",
                      "tx_nf_method_parameter")),
  "DllStatusFile": (SF + "dll_status", "DllStatusFile",
                    F("last_rx_packet_level", "last_rx_packet_link_budget", "noise_floor", "channel_header",
                      "channel_index", "scan_timeout_ratio", "scan_count", "scan_timeout_count")),
  "PhyStatusFile": (SF + "phy_status", "PhyStatusFile",
                    F("up_time", "rx_time", "tx_time", "tx_duty_cycle", "channel_status_list_length",
                      "channel_status_identifier", "channel_noise_floor")),
  "RootAuthenticationKeyFile": (SF + "root_authentication_key", "RootAuthenticationKeyFile", F("key")),
  "UserAuthenticationKeyFile": (SF + "user_authentication_key", "UserAuthenticationKeyFile", F("key")),
  "SecurityKeyFile": (SF + "security_key", "SecurityKeyFile", F("key")),
  "AccessProfileFile": (SF + "access_profile", "AccessProfileFile", F("access_specifier", "access_profile")),
  "InterfaceConfigurationFile": (SF + "interface_configuration", "InterfaceConfigurationFile",
                                 F("interface_configuration", ("file_id", "file_id", "id"))),
  "NotImplementedFile": (SF + "not_implemented", "NotImplementedFile",
                         F(("file_id", "file_id", "id"), "length", "data")),
}
ENUMS = {
  "IdType": "d7a.d7anp.addressee", "NlsMethod": "d7a.d7anp.addressee", "InterfaceType": "d7a.alp.interface",
  "ResponseMode": "d7a.sp.qos", "RetryMode": "d7a.sp.qos", "QueryType": OPND + "query",
  "ArithComparisonType": OPND + "query", "ActionCondition": "d7a.fs.file_properties",
  "StorageClass": "d7a.fs.file_properties", "ChannelCoding": "d7a.phy.channel_header",
  "ChannelClass": "d7a.phy.channel_header", "ChannelBand": "d7a.phy.channel_header",
  "Bandwidth": "d7a.phy.channel_status_identifier", "EngineeringModeMode": SF + "engineering_mode",
  "SystemFileIds": SF + "system_file_ids", "MessageType": "d7a.serial_modem_interface.parser", "CsmaCaMode": "d7a.dll.access_profile",
}


def load(tag):
  mod, cls, _ = CLASSES[tag]
  return getattr(importlib.import_module(mod), cls)


# import everything up front, so every request runs against the same loaded program
LOAD_ERRORS = {}
def tryload(fn, name):
  try: return fn()
  except Exception as e: LOAD_ERRORS[name] = repr(e)[:300]
for _t in sorted(CLASSES): tryload(lambda: load(_t), _t)
for _t in sorted(ENUMS): tryload(lambda: importlib.import_module(ENUMS[_t]), _t)
from d7a.alp.parser import Parser as AlpParser
from d7a.alp.command import Command
from d7a.serial_modem_interface.parser import Parser as SerialParser
from d7a.dll.parser import Parser as DllParser, FrameType
from d7a.support.Crc import calculate_crc
from d7a.system_files.system_files import SystemFiles
from d7a.system_files.system_file_ids import SystemFileIds
import inspect
import jsonpickle
from d7a.support.schema import Validatable

BY_CLASS = {}
for _t in CLASSES:
  if _t not in LOAD_ERRORS: BY_CLASS[load(_t)] = _t


def make(v):
  """ JSON model -> python object """
  if isinstance(v, dict):
    if "t" in v:
      tag = v["t"]
      kw = {}
      for (name, key, _) in CLASSES[tag][2]:
        if key is not None and name in v: kw[str(key)] = make(v[name])
      return load(tag)(*[make(x) for x in v.get("args", [])], **kw)
    if "e" in v:
      return getattr(importlib.import_module(ENUMS[v["e"]]), v["e"])[v["n"]]
    if "str" in v: return str(v["str"])
    if "uni" in v: return unicode(v["uni"])
    if "tuple" in v: return tuple(make(x) for x in v["tuple"])
    if "bytearray" in v: return bytearray(v["bytearray"])
    if "float" in v: return float(v["float"])
    if "obj" in v: return object()
    raise RuntimeError("bad model %r" % (v,))
  if isinstance(v, list): return [make(x) for x in v]
  return v


def dump(o, depth=0):
  """ python object -> JSON model, by public attribute """
  if depth > 12: return {"deep": str(type(o))}
  if o is None or isinstance(o, (bool, int, long)):
    if isinstance(o, Enum): return {"e": type(o).__name__, "n": o.name}
    return o
  if isinstance(o, Enum): return {"e": type(o).__name__, "n": o.name}
  if isinstance(o, float): return {"float": repr(o)}
  if isinstance(o, basestring):
    return {"str": o if isinstance(o, unicode) else o.decode("latin-1")}
  if isinstance(o, (list, bytearray)): return [dump(x, depth + 1) for x in o]
  if isinstance(o, tuple): return {"tuple": [dump(x, depth + 1) for x in o]}
  tag = BY_CLASS.get(type(o))
  if tag is None: return {"other": type(o).__name__}
  d = {"t": tag}
  for (name, _, attr) in CLASSES[tag][2]:
    if attr is not None: d[name] = dump(getattr(o, attr, None), depth + 1)
  return d


def ser(o):
  """ bytes of an object, as its users take them """
  if isinstance(o, Command): return bytearray(o)
  out = bytearray()
  for b in o: out.append(b)
  return out


def hx(b): return "".join("%02x" % x for x in bytearray(b))


def unhx(s): return bytearray.fromhex(unicode(s)) if s else bytearray()


def exc_info():
  et, ev = sys.exc_info()[:2]
  name = getattr(et, "__name__", str(et))
  try: msg = str(ev)[:300]
  except BaseException: msg = "?"
  return {"exc": name, "msg": msg, "value_error": isinstance(ev, ValueError),
          "error": isinstance(ev, Exception)}


def attempt(fn):
  try: return fn()
  except (KeyboardInterrupt, SystemExit): raise
  except: return exc_info()


def stream(hexs): return ConstBitStream(bytes=bytearray(unhx(hexs)))


def extras(o, want):
  r = {}
  if "hex" in want: r["hex"] = attempt(lambda: hx(ser(o)))
  if "hex2" in want: r["hex2"] = attempt(lambda: hx(ser(o)))
  if "dump" in want: r["dump"] = attempt(lambda: dump(o))
  if "str" in want: r["str"] = attempt(lambda: {"s": text(o)})
  if "hex3" in want: r["hex3"] = attempt(lambda: hx(ser(o)))
  if "describe" in want: r["describe"] = attempt(lambda: {"s": lat(o.describe_actions())})
  if "actstrs" in want: r["actstrs"] = attempt(lambda: [text(a) for a in o.actions])
  if "int" in want: r["int"] = attempt(lambda: int(o))
  if "decompress" in want: r["decompress"] = attempt(lambda: o.decompress())
  if "as_dict" in want: r["as_dict"] = attempt(lambda: plain(o.as_dict()))
  if "len" in want: r["len"] = attempt(lambda: len(o))
  if "length" in want: r["length"] = attempt(lambda: o.length)
  if "id" in want: r["id"] = attempt(lambda: dump(o.id))
  if "length_dump" in want: r["length_dump"] = attempt(lambda: dump(o.length))
  if "acthex" in want: r["acthex"] = attempt(lambda: [hx(ser(a)) for a in o.actions])
  if "d7status" in want: r["d7status"] = attempt(lambda: dump(o.get_d7asp_interface_status()))
  if "d7hex" in want:
    def d7hex():
      x = o.get_d7asp_interface_status()
      return None if x is None else hx(ser(x))
    r["d7hex"] = attempt(d7hex)
  if "statushex" in want: r["statushex"] = attempt(lambda: hx(ser(o.interface_status)))
  if "retdata" in want:
    def rd():
      out = []
      for a in o.actions:
        if type(a.operation).__name__ == "ReturnFileData":
          out.append(retdata(a.operation))
      return out
    r["retdata"] = attempt(rd)
  if "asdict" in want: r["asdict"] = attempt(lambda: {"got": plain(o.as_dict()), "ref": plain(fields_of(o)), "hex": hx(ser(o)),
                                                      "again": plain(o.as_dict())})
  if "pickle" in want: r["pickle"] = attempt(lambda: pickled(o))
  return r


def retdata(op):
  return {"type": None if op.systemfile_type is None else type(op.systemfile_type).__name__,
          "type_id": None if op.systemfile_type is None else dump(op.systemfile_type.id),
          "parsed": dump(op.file_data_parsed),
          "parsed_hex": None if op.file_data_parsed is None else attempt(lambda: hx(ser(op.file_data_parsed)))}


def pickled(o):
  js = jsonpickle.encode(o)
  back = jsonpickle.decode(js)
  return {"hex": attempt(lambda: hx(ser(back))), "dump": attempt(lambda: dump(back)), "str": attempt(lambda: text(back)),
          "cls": type(back).__name__, "ref": attempt(lambda: plain(fields_of(back))), "before": hx(ser(o)),
          "js": json.loads(js).get("py/object")}


def fields_of(o):
  """ what a dictionary of the object has to hold """
  if isinstance(o, (list, tuple)): return [fields_of(x) for x in o]
  if isinstance(o, Validatable):
    d = {"__CLASS__": type(o).__name__}
    for k, v in vars(o).items():
      if not k.startswith("_") and not inspect.isclass(v): d[k] = fields_of(v)
    return d
  return o


def lat(s): return s if isinstance(s, unicode) else s.decode("latin-1")


def text(o): return lat(str(o))


def plain(v):
  if isinstance(v, dict): return dict((lat(str(k)), plain(x)) for k, x in v.items())
  if isinstance(v, (list, tuple)): return [plain(x) for x in v]
  return dump(v)


OPS = {}
def op(f):
  OPS[f.__name__[3:]] = f
  return f


@op
def op_ping(q): return {"pong": 1}


@op
def op_stats(q): return dict(fastcerb.STATS)


@op
def op_build(q):
  o = make(q["model"])
  return extras(o, q["want"])


@op
def op_buildmany(q):
  out = []
  for m in q["models"]:
    out.append(attempt(lambda: extras(make(m), q["want"])))
  return {"items": out}


@op
def op_parse(q):
  s = stream(q["hex"])
  if "skip" in q: s.read("bytes:%d" % q["skip"]) if q["skip"] else None
  if q["what"] == "alp":
    o = AlpParser().parse(s, q["length"])
  elif q["what"] in ("NpFrame", "TpFrame"):
    o = load(q["what"]).parse(s, q["length"])
  else:
    o = load(q["what"]).parse(s)
  r = {"bits": s.pos}
  r.update(extras(o, q["want"]))
  return r


@op
def op_parsemany(q):
  out = []
  for it in q["items"]:
    out.append(attempt(lambda: op_parse(it)))
  return {"items": out}


@op
def op_row(q):
  """ objects one after another from one stream; commands by one parser, when told so """
  s = stream(q["hex"])
  alp = AlpParser()
  kept, out = [], []
  for (what, n) in q["items"]:
    before = s.pos
    def one():
      if what == "alp": o = (alp if q.get("one") else AlpParser()).parse(s, n)
      elif what in ("NpFrame", "TpFrame"): o = load(what).parse(s, n)
      else: o = load(what).parse(s)
      kept.append(o)
      return {"bits": s.pos - before, "at": before}
    out.append(attempt(one))
    if "exc" in out[-1]:        # what was refused is skipped
      if n is None or before + 8 * n > len(s): break
      s.pos = before + 8 * n
      kept.append(None)
  return {"items": out, "objs": [None if o is None else extras(o, ["dump", "hex"]) for o in kept], "rest": attempt(lambda: {"hex": hx(s.read("bytes:%d" % ((len(s) - s.pos) // 8)))})}


@op
def op_parsers(q):
  """ several parsers, used in turn: [kind, option] each; steps: [which, bytes] and ["build", which, command] """
  ps = []
  for (kind, o) in q["parsers"]:
    ps.append(SerialParser(skip_alp_parsing=True) if kind == "raw" else SerialParser() if kind == "serial" else
              DllParser(FrameType.FOREGROUND) if kind == "fg" else DllParser(FrameType.BACKGROUND) if kind == "bg" else AlpParser())
  out = []
  for st in q["steps"]:
    p = ps[st[0]]
    kind = q["parsers"][st[0]][0]
    def one():
      if isinstance(st[1], dict):
        return {"frame": hx(p.build_serial_frame(make(st[1]))), "up": p.up_counter}
      b = unhx(st[1])
      if kind == "alp":
        return attempt(lambda: {"dump": dump(p.parse(ConstBitStream(bytes=b), len(b)))})
      if kind in ("fg", "bg"):
        (frames, info) = p.parse(b)
        return {"frames": [dump(f) for f in frames], "parsed": info["parsed"], "buffer": info["buffer"], "skipped": [e["skipped"] for e in info["errors"]]}
      (mts, cmds, info) = p.parse(b)
      return {"msgs": [ser_msg(m, c) for m, c in zip(mts, cmds)], "nm": [len(mts), len(cmds)], "parsed": info["parsed"], "buffer": info["buffer"],
              "skipped": [e["skipped"] for e in info["errors"]]}
    out.append(attempt(one))
    out[-1]["all"] = [[hx(bytearray(x.buffer)), getattr(x, "down_counter", 0), getattr(x, "error_counter", 0), getattr(x, "up_counter", 0)] if hasattr(x, "buffer") else None for x in ps]
  return {"steps": out}


@op
def op_compress(q):
  CT = load("CT")
  out = []
  for (v, ceil) in q["values"]:
    def one():
      if isinstance(v, dict): val = make(v)
      else: val = v
      c = CT.compress(val, ceil) if ceil is not None else CT.compress(val)
      if c is None: return None
      return [c.exp, c.mant, int(c), c.decompress(), c.compressed_value(), hx(ser(c))]
    out.append(attempt(one))
  return {"items": out}


@op
def op_crc(q):
  out = []
  for (h, kind) in q["items"]:
    b = unhx(h)
    def one():
      if kind == "bytes": x = bytes(b)
      elif kind == "list": x = list(b)
      elif kind == "tuple": x = tuple(b)
      else: x = b
      return list(calculate_crc(x))
    out.append(attempt(one))
  return {"items": out}


@op
def op_channel(q):
  """ text <-> channel id/header """
  cls = load(q["what"])
  o = cls.from_string(q["text"])
  return {"dump": dump(o), "hex": hx(ser(o)), "str": text(o)}


@op
def op_channels(q):
  """ a run of channel ids: bytes, text, parsed back from both """
  cls = load("ChannelID")
  h = make(q["header"])
  out = []
  for i in range(q["lo"], q["hi"]):
    def one():
      o = cls(channel_header=h, channel_index=i)
      b = ser(o)
      t = text(o)
      f = cls.from_string(t)
      return [hx(b), t, cls.parse(ConstBitStream(bytes=b)).channel_index, hx(ser(f)), f.channel_index]
    out.append(attempt(one))
  return {"items": out}


@op
def op_eq(q):
  a = make(q["a"])
  b = make(q["b"])
  return {"eq": a == b, "ne": a != b, "eq_r": b == a, "ne_r": b != a,
          "types": [type(x).__name__ for x in (a == b, a != b)]}


def _walk(o, path):
  for k in path: o = o[k] if isinstance(k, (int, long)) else getattr(o, k)
  return o


@op
def op_objs(q):
  """ history over several objects: bytes of all of them after every step """
  objs = []
  out = []
  for st in q["steps"]:
    def one():
      if st[0] == "make": objs.append(make(st[1]))
      elif st[0] == "parse": objs.append(load(st[1]).parse(stream(st[2])))
      elif st[0] == "set":
        o = _walk(objs[st[1]], st[2][:-1])
        k = st[2][-1]
        if isinstance(k, (int, long)): o[k] = make(st[3])
        else: setattr(o, str(k), make(st[3]))
      elif st[0] == "append": _walk(objs[st[1]], st[2]).append(make(st[3]))
      elif st[0] == "pop": _walk(objs[st[1]], st[2]).pop()
      return {"all": [attempt(lambda: hx(ser(o))) for o in objs]}
    out.append(attempt(one))
  return {"steps": out}


def look(o, how, other):
  if how == "hex": ser(o)
  elif how == "str": str(o)
  elif how == "repr": repr(o)
  elif how == "dump": dump(o)
  elif how == "eq":
    o == other
    o != other
  elif how == "len":
    if hasattr(o, "__len__"): len(o)
  elif how == "as_dict":
    if hasattr(o, "as_dict"): o.as_dict()
  elif how == "pickle": jsonpickle.decode(jsonpickle.encode(o))
  elif how == "copy":
    import copy
    copy.deepcopy(o)
  elif how == "spoil-copy":
    import copy
    spoil(copy.deepcopy(o), set())
  elif how == "spoil-pickled":
    spoil(jsonpickle.decode(jsonpickle.encode(o)), set())
  elif how == "spoil-export":
    if hasattr(o, "as_dict"): spoil(o.as_dict(), set())
  elif how == "spoil-bytes":
    spoil(list(o), set())
  elif how == "partial":
    for _ in range(3):
      it = iter(o)
      for _, _b in zip(range(2), it): pass
  elif how == "interleaved":
    a, b = iter(o), iter(o)
    got = [[], []]
    for x in a:
      got[0].append(x)
      for y in b:
        got[1].append(y)
        break
    got[1].extend(b)
    if got[0] != got[1]: raise ValueError("two iterations over one object differ: %r" % (got,))
  elif how == "ask":
    for n in ("describe_actions", "get_d7asp_interface_status", "validate", "decompress", "compressed_value"):
      try:
        if hasattr(o, n): getattr(o, n)()
      except Exception: pass # what it answers is not the question here
    for n in dir(o): getattr(o, n)


def spoil(v, seen):
  """ change everything that can be changed in something that was given to us, but is not the object itself """
  if id(v) in seen or isinstance(v, type): return
  seen.add(id(v))
  if isinstance(v, list):
    for x in v: spoil(x, seen)
    if not [x for x in v if hasattr(x, "as_dict")]: v.append(77)
    if len(v) > 1: v.reverse()
  elif isinstance(v, dict):
    for x in list(v.values()): spoil(x, seen)
    v["spoiled"] = 1
  elif hasattr(v, "as_dict"):
    for x in list(v.__dict__.values()): spoil(x, seen)
    for (k, x) in list(v.__dict__.items()):
      if isinstance(x, (int, long)): v.__dict__[k] = x + 1


@op
def op_pool(q):
  """ history over several objects: bytes of all of them, and a fingerprint of their fields, after every step """
  objs = []
  out = []
  for st in q["steps"]:
    def one():
      if st[0] == "make": objs.append(make(st[1]))
      elif st[0] == "parse": objs.append(load(st[1]["t"]).parse(stream(st[2])))
      elif st[0] == "command": objs.append(AlpParser().parse(stream(st[2]), len(st[2]) // 2))
      elif st[0] == "look": look(objs[st[1]], st[2], objs[st[3]])
      elif st[0] == "set":
        o = _walk(objs[st[1]], st[2][:-1])
        k = st[2][-1]
        if isinstance(k, (int, long)): o[k] = make(st[3])
        else: setattr(o, str(k), make(st[3]))
      elif st[0] == "append": _walk(objs[st[1]], st[2]).append(make(st[3]))
      elif st[0] == "forward":
        objs.append(Command(tag_id=st[2]))
        objs[-1].add_forward_action(make({"e": "InterfaceType", "n": "D7ASP"}))
      return {"all": [[attempt(lambda: hx(ser(o))), hash(json.dumps(dump(o), sort_keys=True))] for o in objs]}
    out.append(attempt(one))
  return {"steps": out}


@op
def op_names(q):
  """ [enumeration, member name or None, method, arguments] """
  out = []
  for (e, n, method, args) in q["items"]:
    def one():
      cls = getattr(importlib.import_module(ENUMS[e]), e)
      o = cls if n is None else cls[n]
      return {"v": dump(str(o) if method == "str" else cls(args[0]) if method == "value" else getattr(o, method)(*[make(a) for a in args]))}
    out.append(attempt(one))
  return {"items": out}


@op
def op_derived(q):
  """ attributes by path, of objects built and parsed """
  out = []
  for it in q["items"]:
    def one():
      o = AlpParser().parse(stream(it["hex"]), len(it["hex"]) // 2) if it["what"] == "alp" else \
          load(it["what"]).parse(stream(it["hex"])) if "hex" in it else make(it["model"])
      return {"v": [attempt(lambda: {"v": dump(_walk(o, p))}) for p in it["paths"]], "len": attempt(lambda: len(ser(o)))}
    out.append(attempt(one))
  return {"items": out}


@op
def op_sysfiles(q):
  sf = SystemFiles()
  out = []
  for k in sf.get_all_system_files():
    f = sf.files[k]
    out.append({"key": dump(k), "value": k.value, "id": dump(f.id), "length": dump(f.length),
                "cls": f.__class__.__name__})
  return {"files": out, "n": len(sf.files), "enum": sorted(x.value for x in SystemFileIds)}


def _iface(v):
  return make(v)


def split_args(kw, names):
  """ the named ones by position """
  return [kw.pop(n) for n in names], kw


def cmd_step(cmds, st):
  """ one step of a history over several commands """
  k = st[0]
  if k in ("factory", "new", "add_forward", "add_indirect"):
    i = 1 if k == "new" else 2
    kw = dict((str(a), make(b)) for a, b in st[i].items())
    if "sysfile" in kw:
      kw["sysfile"] = SystemFiles().files[SystemFileIds(kw["sysfile"])]
    args, kw = split_args(kw, st[i + 1] if len(st) > i + 1 else [])
    if "sysfile" in kw: kw["file"] = kw.pop("sysfile")
  if k == "factory":
    cmds.append(getattr(Command, st[1])(*args, **kw))
  elif k == "new":
    cmds.append(Command(*args, **kw))
  elif k == "twin":
    kw = dict((str(a), make(b)) for a, b in st[1].items())
    cmds.append(Command(**kw))
    cmds.append(Command(**kw))
  elif k == "add_action":
    cmds[st[1]].add_action(make(st[2]))
  elif k == "add_forward":
    cmds[st[1]].add_forward_action(*args, **kw)
  elif k == "add_indirect":
    cmds[st[1]].add_indirect_forward_action(*args, **kw)
  elif k == "ser":
    return {"hex": hx(ser(cmds[st[1]]))}
  elif k == "all":
    pass
  return {"all": [attempt(lambda: hx(ser(c))) for c in cmds], "tags": [dump(c.tag_id) for c in cmds]}


@op
def op_cmds(q):
  cmds = []
  out = []
  for st in q["steps"]:
    out.append(attempt(lambda: cmd_step(cmds, st)))
  return {"steps": out}


def ser_msg(mt, cmd):
  if isinstance(cmd, (int, long)): return {"int": cmd, "mt": int(mt)}
  if isinstance(cmd, basestring): return {"raw": hx(cmd), "mt": int(mt)}
  if isinstance(cmd, bytearray): return {"raw": hx(cmd), "mt": int(mt)}
  if isinstance(cmd, Command): return {"cmd": dump(cmd), "mt": int(mt)}
  return {"other": type(cmd).__name__, "mt": int(mt)}


@op
def op_serial(q):
  """ history on one serial parser """
  p = SerialParser(skip_alp_parsing=q.get("skip", False))
  if "up" in q: p.up_counter = q["up"]
  out = []
  for st in q["ops"]:
    def one():
      if st[0] == "feed":
        b = unhx(st[1])
        kind = st[2] if len(st) > 2 else "ba"
        data = {"ba": lambda: b, "bytes": lambda: bytes(b), "list": lambda: list(b)}[kind]()
        (mts, cmds, info) = p.parse(data)
        return {"msgs": [ser_msg(m, c) for m, c in zip(mts, cmds)], "nm": [len(mts), len(cmds)],
                "parsed": info["parsed"], "buffer": info["buffer"],
                "skipped": [e["skipped"] for e in info["errors"]],
                "errs": [str(e["error"])[:80] for e in info["errors"]],
                "left": hx(p.buffer), "down": p.down_counter, "errc": p.error_counter}
      elif st[0] == "build":
        c = make(st[1])
        return {"frame": hx(p.build_serial_frame(c)), "payload": hx(ser(c)), "up": p.up_counter}
    out.append(attempt(one))
  return {"steps": out}


@op
def op_dll(q):
  """ history on one radio frame parser """
  p = DllParser(FrameType.FOREGROUND if q["type"] == "fg" else FrameType.BACKGROUND)
  out = []
  for h in q["feeds"]:
    def one():
      b = unhx(h)
      (frames, info) = p.parse(b if q.get("kind", "ba") == "ba" else list(b))
      return {"frames": [dump(f) for f in frames], "parsed": info["parsed"], "buffer": info["buffer"],
              "nerr": len(info["errors"])}
    out.append(attempt(one))
  return {"steps": out}


def main():
  import worker_modem
  worker_modem.register(OPS, globals())
  _out.write(json.dumps({"ready": 1, "repo": REPO, "load_errors": LOAD_ERRORS}) + "\n")
  _out.flush()
  while True:
    line = sys.stdin.readline()
    if not line: break
    try:
      q = json.loads(line)
    except ValueError:
      break
    random.seed(0)
    try:
      r = OPS[q["op"]](q)
    except (KeyboardInterrupt, SystemExit):
      raise
    except:
      r = exc_info()
    _out.write(json.dumps(r) + "\n")
    _out.flush()


if __name__ == "__main__":
  main()
