from common import *
from props import c01

WANT = ["dump", "hex", "asdict", "hex2", "pickle", "hex3", "str", "retdata"]


def covered(got, ref, at):
    """got holds everything ref does"""
    if isinstance(ref, dict) and "__CLASS__" in ref:
        need(isinstance(got, dict), "%s: not exported as a dictionary but as %s", at, short(got, 200))
        for k in ref:
            need(k in got, "%s.%s is missing from the export", at, k)
            covered(got[k], ref[k], at + "." + k)
    elif isinstance(ref, list):
        need(isinstance(got, list) and len(got) == len(ref), "%s: exported as %s instead of %s", at, short(got, 200), short(ref, 200))
        for i, (x, y) in enumerate(zip(got, ref)):
            covered(x, y, "%s[%d]" % (at, i))
    else:
        same(got, ref, at)
        need(isinstance(got, bool) == isinstance(ref, bool), "%s: %s instead of %s", at, got, ref)


def exports(r, rec, what):
    b = ok(r["hex"], "serialising")
    d = ok(r["asdict"], "exporting %s" % what)
    same(d["got"]["__CLASS__"], d["ref"]["__CLASS__"], "class named by the export")
    covered(d["got"], d["ref"], "export of %s" % what)
    covered(d["again"], d["ref"], "second export of %s" % what)
    for k in ("hex2", "hex3"):
        same(ok(r[k], "serialising"), b, "bytes of %s after the export" % what)
    same(d["hex"], b, "bytes of %s after the export" % what)
    p = ok(r["pickle"], "pickling %s to JSON and back" % what)
    same(p["cls"], "Command", "class of the restored command")
    same(ok(p["hex"], "serialising the restored command"), b, "bytes of the command restored from JSON")
    same(ok(p["dump"], "reading the restored command"), ok(r["dump"], "reading"), "fields of the command restored from JSON")
    covered(ok(p["ref"], "reading"), d["ref"], "restored command")
    covered(d["ref"], p["ref"], "command, against the restored one")
    ok(p["str"], "printing the restored command")


def built(w, case, rec):
    r = build(w, case, WANT)
    exports(r, rec, "the command")
    acts = r["asdict"]["got"]["actions"]
    mine = [a for a in case["actions"] if a["t"] not in ("TagRequestAction", "TagResponseAction", "StatusAction")]
    same([a["__CLASS__"]["str"] for a in acts], [a["t"] for a in mine], "classes of the exported actions")
    same([a["operation"]["__CLASS__"]["str"] for a in acts], [a["operation"]["t"] for a in mine], "classes of the exported operations")
    rec.nontrivial(len(case["actions"]) >= 1)
    rec.label("actions=%d" % len(case["actions"]), *sorted({a["operation"]["t"] for a in case["actions"]}))


def parsed(w, case, rec):
    b = b"".join(enc(a) for a in case)
    r = ok(parse(w, "alp", b, length=len(b), want=WANT), "parsing %s" % b.hex())
    m = ref.decode_command(b)
    same(ok(r["dump"], "reading"), m, "command %s" % b.hex())
    exports(r, rec, "the command %s" % short(b.hex(), 200))
    g = r["asdict"]["got"]
    same(g["tag_id"], m["tag_id"], "exported tag")
    same(g["execution_completed"], m["execution_completed"], "exported completion")
    if m["completed_with_error"] is not None:
        same(g.get("completed_with_error"), m["completed_with_error"], "exported error state")
    same(g["interface_status"] is None, m["interface_status"] is None, "exported interface status is missing")
    rec.nontrivial(len(case) >= 1)
    rec.label("actions=%d" % len(case), "status" if m["interface_status"] else "no-status", "done" if m["execution_completed"] else "executing")


def pairs():
    """each action alone and each enumeration value used twice in a command"""
    off = {"t": "Offset", "id": 0x41, "offset": {"t": "Length", "value": 100}}
    reg = lambda o: {"t": "RegularAction", "group": False, "resp": True, "operation": o}
    ct = {"t": "CT", "exp": 3, "mant": 17}
    cmd = lambda *a: {"t": "Command", "actions": list(a), "generate_tag_request_action": True, "tag_id": 77, "send_tag_response_when_completed": True}

    def fwd(n, rm, rt, idt):
        i = {"UID": 0x1122334455667788, "VID": 0x1234, "NOID": None, "NBID": ct}[idt]
        c = {"t": "Configuration", "qos": {"t": "QoS", "resp_mod": E("ResponseMode", rm), "retry_mod": E("RetryMode", rt), "stop_on_err": True, "record": False},
             "dorm_to": ct, "addressee": {"t": "Addressee", "access_class": 1, "id_type": E("IdType", idt), "nls_method": E("NlsMethod", n), "id": i}}
        return {"t": "ForwardAction", "resp": True, "operation": {"t": "Forward", "operand": {
            "t": "InterfaceConfiguration", "interface_id": E("InterfaceType", "D7ASP"), "interface_configuration": c}}}
    for n in sorted(ref.ENUM["NlsMethod"]):
        for idt in sorted(ref.ENUM["IdType"]):
            for rm in sorted(ref.ENUM["ResponseMode"])[::3] + ["RESP_MODE_ANY"]:
                f = fwd(n, rm, sorted(ref.ENUM["RetryMode"])[0], idt)
                yield cmd(f)
                yield cmd(f, f)
                yield cmd(fwd("NONE", "RESP_MODE_ANY", sorted(ref.ENUM["RetryMode"])[0], "UID"), f, f)
    for ac in sorted(ref.ENUM["ActionCondition"]):
        for sc in sorted(ref.ENUM["StorageClass"]):
            h = {"t": "FileHeader", "permissions": dict({k: k == "encrypted" for k in (
                "encrypted", "executeable", "user_readable", "user_writeable", "user_executeable", "guest_readable", "guest_writeable", "guest_executeable")}, t="FilePermissions"),
                "properties": {"t": "FileProperties", "act_enabled": True, "act_condition": E("ActionCondition", ac), "storage_class": E("StorageClass", sc)},
                "alp_command_file_id": 1, "interface_file_id": 2, "file_size": 2 ** 32 - 1, "allocated_size": 2 ** 31}
            o = {"t": "FileHeaderOperand", "file_id": 9, "file_header": h}
            yield cmd(reg({"t": "WriteFileHeader", "operand": o}), reg({"t": "CreateNewFile", "operand": o}), reg({"t": "ReturnFileHeader", "operand": o}))
    for n in (0, 1, 255, 300):
        d = {"t": "Data", "data": gen.pattern(n, 3, 5), "offset": off}
        yield cmd(reg({"t": "ReturnFileData", "operand": d}), reg({"t": "WriteFileData", "operand": d}), reg({"t": "ReadFileData", "operand": {
            "t": "DataRequest", "length": n, "offset": off}}))



FACETS = [
    Facet("enums", built, cases=pairs, rule="all NLS methods, id types, conditions and storage classes, alone and shared within a command"),
    Facet("built", built, lambda: c01.command(60, 5), quick=350, rule="random commands of built actions, with at least one action"),
    Facet("parsed", parsed, lambda: gen.wire_actions(60, 5), quick=350, rule="random commands from bytes, with tags, answers and interface status"),
]
