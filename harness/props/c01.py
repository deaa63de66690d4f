from common import *
import gen


@st.composite
def command(draw, hi=300, most=6):
    acts = draw(st.lists(gen.built_action(hi), max_size=most))
    m = {"t": "Command", "actions": acts, "generate_tag_request_action": draw(st.integers(0, 4)) > 0,
         "tag_id": None, "send_tag_response_when_completed": draw(gen.BOOL)}
    k = draw(st.integers(0, 3))
    if k:
        m["tag_id"] = draw(gen.BYTE)
    elif m["generate_tag_request_action"] and draw(gen.BOOL):
        acts.insert(draw(st.integers(0, len(acts))), draw(gen.tag_request))
    return m


def check(w, case, rec):
    n = len(case["actions"])
    r = build(w, case, ["hex", "dump", "hex2", "str", "as_dict", "hex3"])
    want = shown(case)
    got = r["dump"]
    if case["generate_tag_request_action"] and want["tag_id"] is None:
        need(isinstance(got["tag_id"], int) and 0 <= got["tag_id"] <= 255, "generated tag id is %s", got["tag_id"])
        want["tag_id"] = got["tag_id"]
        rec.label("random-tag")
    same(got, want, "fields of the command")
    exp = enc(dict(case, actions=[a for a in case["actions"] if a["t"] != "TagRequestAction"], tag_id=want["tag_id"],
                   send_tag_response_when_completed=want["send_tag_response_when_completed"])).hex()
    same(r["hex"], exp, "bytes of the command")
    same(r["hex2"], exp, "bytes of the command, serialised again")
    same(r["hex3"], exp, "bytes of the command, after describing it")
    rec.nontrivial(n >= 1)
    rec.label("actions=%d" % n, "bytes>=256" if len(exp) >= 512 else "bytes<256")
    for a in case["actions"]:
        rec.label(a["operation"]["t"])


def big(w, case, rec):
    """long data, long command lists"""
    a = {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": case["op"], "operand": {
        "t": "Data", "data": gen.pattern(case["n"], case["a"], case["b"]),
        "offset": {"t": "Offset", "id": case["id"], "offset": {"t": "Length", "value": case["off"]}}}}}
    check(w, {"t": "Command", "actions": [a] * case["k"], "generate_tag_request_action": True, "tag_id": case["id"],
              "send_tag_response_when_completed": True}, rec)


def bigs():
    for n in (16382, 16383, 16384, 16385, 20000):
        yield {"op": "WriteFileData", "n": n, "a": 3, "b": 5, "id": 255, "off": 2 ** 30 - 1, "k": 1}
    yield {"op": "ReturnFileData", "n": 16384, "a": 0, "b": 1, "id": 64, "off": 0, "k": 1}
    yield {"op": "ReturnFileData", "n": 3, "a": 0, "b": 1, "id": 64, "off": 0, "k": 300}


def flag_cases():
    """every operation with every flag combination"""
    ops = [("NoOperation", None), ("ReadFileData", {"t": "DataRequest", "length": 5, "offset": OFF}),
           ("ReadFileHeader", {"t": "FileIdOperand", "file_id": 7}), ("WriteFileData", {"t": "Data", "data": [], "offset": OFF}),
           ("WriteFileHeader", HDR), ("CreateNewFile", HDR), ("ReturnFileData", {"t": "Data", "data": [1], "offset": OFF}),
           ("ReturnFileHeader", HDR),
           ("Forward", {"t": "InterfaceConfiguration", "interface_id": E("InterfaceType", "SERIAL"),
                        "interface_configuration": None}),
           ("BreakQuery", gen.query_of([1, 2], {"t": "ArithQueryParams", "signed_data_type": True,
                                               "comp_type": E("ArithComparisonType", "LESS_THAN")}, OFF))]
    for name, operand in ops:
        o = {"t": name, "operand": operand}
        for g in (False, True):
            for r in (False, True):
                yield {"t": "Command", "actions": [{"t": "RegularAction", "group": g, "resp": r, "operation": o}],
                       "generate_tag_request_action": True, "tag_id": 0, "send_tag_response_when_completed": g != r}
    for t in range(256):
        for s in (False, True):
            yield {"t": "Command", "actions": [], "generate_tag_request_action": True, "tag_id": t,
                   "send_tag_response_when_completed": s}


OFF = {"t": "Offset", "id": 200, "offset": {"t": "Length", "value": 64}}
HDR = {"t": "FileHeaderOperand", "file_id": 0x41, "file_header": {
    "t": "FileHeader", "permissions": {"t": "FilePermissions", "encrypted": True, "executeable": False, "user_readable": True,
                                       "user_writeable": False, "user_executeable": True, "guest_readable": False,
                                       "guest_writeable": True, "guest_executeable": False},
    "properties": {"t": "FileProperties", "act_enabled": True, "act_condition": E("ActionCondition", "WRITE_FLUSH"),
                   "storage_class": E("StorageClass", "PERMANENT")},
    "alp_command_file_id": 1, "interface_file_id": 2, "file_size": 0x01020304, "allocated_size": 0xF0F1F2F3}}

FACETS = [
    Facet("flags", check, cases=flag_cases, rule="every operation x group x resp, every tag x respond flag"),
    Facet("command", check, command, quick=7000, rule="random commands of 0..6 actions; non-trivial: at least one action"),
    Facet("long", big, cases=bigs, rule="16 KiB data operands and 300 actions"),
]
