import re
from common import *
from props import c01

DONE = {True: "completed, with error", False: "completed, without error"}


def reps(v):
    if isinstance(v, bool):
        return {str(v), str(int(v))}
    return {str(v), hex(v), hex(v) + "L", "%#x" % v, str(v) + "L"}


def label(text, name, value, what):
    """every name=value of the text shows the value"""
    got = re.findall(r"(?<![\w-])%s=([^,;\s)\]}]*)" % re.escape(name), text)
    need(got, "%s does not show %s: %s", what, name, short(text, 600))
    need(got[0] in reps(value), "%s shows %s=%s instead of %s: %s", what, name, got[0], value, short(text, 600))


def labels(text, m, what, **names):
    for k in m:
        if k in names and names[k]:
            label(text, names[k], m[k], what)


def item(text, name, value, what):
    got = re.findall(r"'%s': ([^,}\]]+)" % re.escape(name), text)
    need(got, "%s does not show %s: %s", what, name, short(text, 600))
    need(any(g.strip() in reps(value) for g in got), "%s shows %s: %s instead of %s: %s", what, name, got, value, short(text, 900))


SAME = lambda *n: {x: x for x in n}
FILE = {
    "UidFile": SAME("uid"), "VidFile": SAME("vid", "control"), "EngineeringModeFile": SAME("flags", "timeout", "eirp"),
    "DllConfigFile": SAME("active_access_class", "lq_filter", "nf_ctrl", "rx_nf_method_parameter", "tx_nf_method_parameter"),
    "DllStatusFile": SAME("last_rx_packet_level", "last_rx_packet_link_budget", "noise_floor", "scan_timeout_ratio", "scan_count", "scan_timeout_count"),
    "PhyStatusFile": SAME("up_time", "rx_time", "tx_time", "channel_status_list_length"),
    "RootAuthenticationKeyFile": SAME("key"), "UserAuthenticationKeyFile": SAME("key"), "SecurityKeyFile": SAME("key"),
    "AccessProfileFile": {"access_specifier": "active_specifier"},
    "FactorySettingsFile": SAME("gain", "rx_bw_low_rate", "rx_bw_normal_rate", "rx_bw_high_rate"),
}


def file_text(t, f, what):
    """f: the file as it presents itself"""
    n = f["t"]
    labels(t, f, what, **FILE.get(n, {}))
    if n == "FirmwareVersionFile":
        for s in ("d7ap v%d.%d," % (f["d7a_protocol_version_major"], f["d7a_protocol_version_minor"]),
                  "filesystem v%d.%d," % (f["filesystem_version_major"], f["filesystem_version_minor"]),
                  "application_name=" + f["application_name"]["str"], "git_sha1=" + f["git_sha1"]["str"]):
            need(s in t, "%s does not show %s: %s", what, s, t)
    if n == "FactorySettingsFile":
        g = lambda *k: tuple(f[x] for x in k)
        for s in ("low rate=%d : %d" % g("bitrate_lo_rate", "fdev_lo_rate"), "normal rate=%d : %d" % g("bitrate_normal_rate", "fdev_normal_rate"),
                  "high rate=%d : %d" % g("bitrate_hi_rate", "fdev_hi_rate"),
                  "preamble sizes %d : %d : %d" % g("preamble_size_lo_rate", "preamble_size_normal_rate", "preamble_size_hi_rate"),
                  "detector size %d : %d : %d" % g("preamble_detector_size_lo_rate", "preamble_detector_size_normal_rate", "preamble_detector_size_hi_rate"),
                  "with tol %d : %d : %d" % g("preamble_tol_lo_rate", "preamble_tol_normal_rate", "preamble_tol_hi_rate"),
                  "smoothing %d with offset %d" % g("rssi_smoothing", "rssi_offset"), "sf set to %d, bw to %d" % g("lora_SF", "lora_bw"),
                  "gaussian set to %d" % f["gaussian"], "paramp to %d" % f["paramp"]):
            need(re.search(re.escape(s) + r"(?!\d)", t.replace("L", "")) or re.search(re.escape(s) + r"(?!\d)", t), "%s does not show %s: %s", what, s, t)
    if n == "PhyStatusFile":
        k = f["channel_status_list_length"]
        ids = re.findall(r"channel_index=(\d+)[^=]*noise_floor=(\d+)", t)
        same([(int(a), int(b)) for a, b in ids], [(c["channel_index"], v) for c, v in
             list(zip(f["channel_status_identifier"], f["channel_noise_floor"]))[:k]], "channels listed by %s" % what)


def act_text(t, a, what):
    """text of an action other than a decoded system file"""
    op = a["operation"]
    n, o = op["t"], op["operand"]
    need(t.startswith(n + ":"), "%s does not name the operation %s: %s", what, n, short(t, 300))
    if n in ("ReadFileData", "WriteFileData", "ReturnFileData"):
        label(t, "file-id", o["offset"]["id"], what)
        label(t, "offset", o["offset"]["offset"]["value"], what)
        label(t, "length", len(o["data"]) if "data" in o else o["length"]["value"] if isinstance(o["length"], dict) else o["length"], what)
        if "data" in o:
            d = re.search(r"data=\[([^\]]*)\]", t)
            need(d is not None, "%s does not show the data: %s", what, short(t, 600))
            same([int(x) for x in d.group(1).split(",") if x.strip()], o["data"], "data shown by %s" % what)
    elif n == "ReadFileHeader":
        label(t, "file-id", o["file_id"], what)
    elif n in ("WriteFileHeader", "CreateNewFile", "ReturnFileHeader"):
        label(t, "file-id", o["file_id"], what)
        labels(t, o["file_header"], what, **SAME("alp_command_file_id", "interface_file_id", "file_size", "allocated_size"))
        labels(t, o["file_header"]["properties"], what, act_enabled="act_enabled")
    elif n == "IndirectForward":
        label(t, "interface-file-id", o["interface_file_id"], what)
        if o["interface_configuration_overload"]:
            label(t, "ac", o["interface_configuration_overload"]["access_class"], what)
    elif n == "Forward":
        i = o["interface_id"]
        need(i["n"] in t, "%s does not show the interface %s: %s", what, i["n"], short(t, 500))
        c = o["interface_configuration"]
        if c and c["t"] == "Configuration":
            item(t, "access_class", c["addressee"]["access_class"], what)
            item(t, "stop_on_err", c["qos"]["stop_on_err"], what)
            item(t, "record", c["qos"]["record"], what)
            for e in (c["qos"]["resp_mod"], c["qos"]["retry_mod"], c["addressee"]["id_type"], c["addressee"]["nls_method"]):
                need("%s.%s" % (e["e"], e["n"]) in t, "%s does not show %s: %s", what, e["n"], short(t, 900))
        elif c:
            for k in c:
                if k != "t":
                    item(t, k, c[k], what)


STATUS = SAME("unicast", "nls", "retry", "missed", "fifo_token", "rx_level", "seq_nr", "target_rx_level", "link_budget")


def decoded(w, a):
    """the text an action that returns valid system-file content must have, or None"""
    from props import c25
    op = a["operation"]
    if op["t"] != "ReturnFileData":
        return None
    fid, d = op["operand"]["offset"]["id"], bytes(op["operand"]["data"])
    f = c25.expected(fid, d)
    if f is None:
        return None
    r = ok(parse(w, f["t"], d, want=("str", "hex")), "parsing %s" % f["t"])
    t = ok(r["str"], "printing %s" % f["t"])["s"]
    file_text(t, f, "the text of %s" % f["t"])
    return "Received %s content: %s" % (f["t"], t)


def command(w, r, m, rec, what):
    """r: the answer for a command, m: its model, as it presents itself"""
    t = ok(r["str"], "printing %s" % what)["s"]
    acts = ok(r["actstrs"], "printing the actions of %s" % what)
    for k in ("hex2", "hex3"):
        same(ok(r[k], "serialising"), ok(r["hex"], "serialising"), "bytes of %s after printing" % what)
    head = t.split("\n")[0]
    need(re.search(r"tag %s(?!\w)" % (m["tag_id"],), head), "%s does not show its tag %s: %s", what, m["tag_id"], head)
    state = DONE[m["completed_with_error"]] if m["execution_completed"] else "executing"
    need("(%s)" % state in head, "%s, which is %s, shows %s", what, state, head)
    same(len(acts), len(m["actions"]), "number of actions shown by %s" % what)
    n = 0
    for a, s in zip(m["actions"], acts):
        d = decoded(w, a)
        if d is not None:
            n += 1
            same(s, d, "text of the returned system file")
        else:
            act_text(s, a, "the text of %s" % short(a, 300))
    at = len(head)
    for s in acts:
        i = t.find(s, at)
        need(i >= 0, "%s does not show, after the ones before, its action %s: %s", what, short(s, 200), short(t, 900))
        at = i + len(s)
    d = ok(r["describe"], "describing %s" % what)["s"]
    same(d, ", ".join(acts).strip(", "), "description of the actions of %s" % what)
    i = m.get("interface_status")
    if i:
        rest = t[at if acts else 0:]
        o = i["operation"]["operand"]
        label(rest, "interface-id", o["interface_id"], what)
        if o["interface_status"]:
            labels(rest, o["interface_status"], what, **STATUS)
            label(rest, "ac", o["interface_status"]["addressee"]["access_class"], what)
    rec.label("actions=%d" % len(acts), "decoded=%d" % n, state, "status" if i else "no-status")
    rec.nontrivial(len(acts) >= 1)


WANT = ["dump", "hex", "str", "hex2", "actstrs", "describe", "hex3"]


def parsed(w, case, rec):
    b = b"".join(enc(a) for a in case)
    try:
        m = ref.decode_command(b)
    except ref.Unspec:
        raise Discard()
    r = ok(parse(w, "alp", b, length=len(b), want=WANT), "parsing %s" % b.hex())
    command(w, r, m, rec, "the command " + short(b.hex(), 300))


def built(w, case, rec):
    r = build(w, case, WANT)
    m = shown(case)
    m["tag_id"] = r["dump"]["tag_id"]
    command(w, r, m, rec, "the command built with " + short(case, 300))


def file_(w, case, rec):
    m = case["f"]
    b = enc(m)
    r = build(w, m, ["hex", "str", "hex2", "hex3"])
    same([r["hex"], r["hex2"], r["hex3"]], [b.hex()] * 3, "bytes before and after printing")
    f = shown(m)
    file_text(r["str"]["s"], f, "the text of %s" % short(m, 300))
    if m["t"] != "PhyStatusFile" or m["channel_status_list_length"] == len(m["channel_status_identifier"]):
        p = ok(parse(w, m["t"], b, want=["str", "hex", "dump"]), "parsing %s" % b.hex())
        file_text(ok(p["str"], "printing")["s"], p["dump"], "the text of the parsed %s" % short(m, 300))
    # nothing of the file is left out
    o = case["g"]
    for k in sorted(m):
        if k in ("t", "channel_status_list_length", "channel_status_identifier", "channel_noise_floor") or m[k] == o[k]:
            continue
        x = dict(m, **{k: o[k]})
        if shown(x) == f or k == "access_profile":
            continue
        t = build(w, x, ["str"])["str"]["s"]
        need(t != r["str"]["s"], "the text of %s is the same with another %s (%s): %s", short(m, 400), k, short(o[k], 100), t)
    rec.nontrivial()
    rec.label(m["t"])


@st.composite
def two_files(draw):
    cls = draw(st.sampled_from(sorted(gen.FILES)))
    return {"f": draw(gen.FILES[cls]), "g": draw(gen.FILES[cls])}


def frame(w, case, rec):
    b = enc(case)
    what = case["t"]
    r = ok(parse(w, what, b, want=["dump", "hex", "str", "hex3"]), "parsing %s" % b.hex())
    t = ok(r["str"], "printing %s" % b.hex())["s"]
    same([ok(r["hex"], "serialising"), ok(r["hex3"], "serialising")], [b.hex()] * 2, "bytes before and after printing")
    d = r["dump"]
    for k in ("length", "subnet", "payload", "crc16"):
        if isinstance(d.get(k), int):
            item(t, k, d[k], "the text of %s" % b.hex())
    if what == "FgFrame":
        np = d["d7anp_frame"]
        tp = np["d7atp_frame"]
        for k in ("dialog_id", "transaction_id"):
            item(t, k, tp[k], "the text of %s" % b.hex())
        for k in ("has_tl", "has_te", "has_agc", "is_dialog_start"):
            item(t, k, tp["control"][k], "the text of %s" % b.hex())
        for k in ("has_hopping", "has_no_origin_access_id"):
            item(t, k, np["control"][k], "the text of %s" % b.hex())
        e = d["control"]["id_type"]
        need("%s.%s" % (e["e"], e["n"]) in t, "the text of %s does not show %s", b.hex(), e["n"])
        rec.label("actions=%d" % len(tp["alp_command"]["actions"]))
    rec.nontrivial()
    rec.label(what)


def states():
    off = lambda i: {"t": "Offset", "id": i, "offset": {"t": "Length", "value": 0}}
    a = {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": "ReturnFileData", "operand": {"t": "Data", "data": [1, 2], "offset": off(0x40)}}}
    b = {"t": "RegularAction", "group": False, "resp": True, "operation": {"t": "ReturnFileData", "operand": {"t": "Data", "data": list(range(8)), "offset": off(0)}}}
    for tag in list(range(0, 256, 15)) + [7]:
        t = lambda e, r: {"t": "TagResponseAction", "eop": e, "error": r, "operation": {"t": "TagResponse", "operand": {"t": "TagId", "tag_id": tag}}}
        q = lambda p: {"t": "TagRequestAction", "respond_when_completed": p, "operation": {"t": "TagRequest", "operand": {"t": "TagId", "tag_id": tag}}}
        for h in [t(e, r) for e in (True, False) for r in (True, False)] + [q(True), q(False)]:
            yield [h]
            yield [h, a, b, a]
            yield [b, h, a]


FACETS = [
    Facet("states", parsed, cases=states, rule="tags, completion and error states with 0 to 3 actions"),
    Facet("parsed", parsed, lambda: gen.wire_actions(60, 5), quick=400, rule="random commands from bytes with at least one action"),
    Facet("built", built, lambda: c01.command(60, 5), quick=250, rule="random built commands with at least one action"),
    Facet("files", file_, two_files, quick=300, rule="random system files, each field replaced by another value"),
    Facet("frames", frame, lambda: st.one_of(gen.fg_frame(limit=80), gen.bg_frame), quick=250, rule="random radio frames"),
]
