from common import *
from props import c09

NAMES = ["read", "write"]


def registry(w, what):
    r = ok(w.call("sysfiles"), "listing the system files")
    same([f["value"] for f in r["files"]], list(range(0x2F)), "%s: ids of the listed system files, in order" % what)
    same(r["n"], 0x2F, "%s: number of registered files" % what)
    same(r["enum"], list(range(0x30)), "%s: defined system file ids" % what)
    for f in r["files"]:
        i = f["value"]
        same([f["id"], f["length"]], [i, ref.SYS[i][1]], "%s: id and declared length of the file registered under %d" % (what, i))
        need(f["cls"] == (ref.SYS[i][0] or f["cls"]), "%s: file %d is registered as %s", what, i, f["cls"])


def check(w, case, rec):
    """reads and writes in a row; the list of files is the same before and after"""
    steps, exp = [], []
    for s in case:
        kw = dict(s[1])
        f = c09.fwd(kw)
        if s[0] == "read":
            a = bytes([1, kw["sysfile"], 0]) + ref.varlen(ref.SYS[kw["sysfile"]][1])
            steps.append(["factory", "create_with_read_file_action_system_file", kw])
        else:
            m = kw["file"]
            if m["t"] == "NotImplementedFile":
                b, i = bytes(m.get("data") or bytes(m["length"])), m["file_id"]
            elif m["t"] == "InterfaceConfigurationFile":
                b, i = enc(m), m["file_id"]
            else:
                b, i = enc(m), gen.FILE_ID[m["t"]] + m.get("access_specifier", 0)
            a = bytes([4, i, 0]) + ref.varlen(len(b)) + b
            steps.append(["factory", "create_with_write_file_action_system_file", kw])
            rec.label(m["t"])
        exp.append(f + a)
        rec.label(s[0] + " over " + kw.get("interface_type", {"n": "default"})["n"])
    r = w.call("cmds", steps=steps)["steps"]
    for n, (s, x) in enumerate(zip(case, r)):
        ok(x, "%s" % short(s, 300))
        for e, h, t in zip(exp, x["all"], x["tags"]):
            need(isinstance(t, int) and 0 <= t <= 255, "tag %s", t)
            same(ok(h, "serialising"), (bytes([0xB4, t]) + e).hex(), "command after %s" % short(s, 300))
    for e in exp:
        if e[0] != 50 and e[0] in (1, 4):
            if e[0] == 4:
                p = ok(parse(w, "alp", e, length=len(e)), "parsing %s" % e.hex())["dump"]["actions"]
                same([p[0]["operation"]["operand"]["offset"]["id"], p[0]["operation"]["operand"]["data"]], [e[1], list(e[3 + len(ref.varlen(len(
                    p[0]["operation"]["operand"]["data"]))):])], "write command parsed back")
    registry(w, "after %s" % short(case, 200))
    rec.nontrivial()


I = lambda n: E("InterfaceType", n)
ABP = {"t": "ABP", "adr_enabled": True, "request_ack": False, "app_port": 1, "data_rate": 2, "dev_addr": 2 ** 32 - 1, "netw_id": 5}
OTAA = {"t": "OTAA", "adr_enabled": False, "request_ack": True, "app_port": 255, "data_rate": 0}


def reads():
    for i in range(0x2F):
        for it, cfg in ((None, None), ("HOST", None), ("D7ASP", None), ("D7ASP", c09.DEFAULT), ("SERIAL", None), ("LORAWAN_ABP", ABP), ("LORAWAN_OTAA", OTAA)):
            kw = {"sysfile": i}
            if it:
                kw["interface_type"] = I(it)
            if cfg:
                kw["interface_configuration"] = cfg
            yield [["read", kw], ["read", {"sysfile": (i + 7) % 0x2F}]]


def ni(fid, n, data=None):
    m = {"t": "NotImplementedFile", "file_id": fid, "length": n}
    if data is not None:
        m["data"] = data
    return m


@st.composite
def history(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        kw = {}
        while True:
            kw = draw(c09.iface({}))
            if c09.fwd(kw) is not None:
                break
            kw = {}
            break
        if draw(st.integers(0, 2)) == 0:
            kw["sysfile"] = draw(st.integers(0, 0x2E))
            out.append(["read", kw])
        else:
            kw["file"] = draw(st.one_of([gen.FILES[c] for c in sorted(gen.FILES)] + [
                st.builds(ni, gen.BYTE, st.sampled_from([0, 1, 9, 64, 65, 255])),
                st.builds(lambda f, d: ni(f, len(d), list(d)), gen.BYTE, st.binary(min_size=1, max_size=20)),
                gen.M("InterfaceConfigurationFile", interface_configuration=gen.iface.filter(lambda m: m["interface_id"]["n"] != "SERIAL"), file_id=gen.BYTE)]))
            out.append(["write", kw])
    return out


FACETS = [
    Facet("reads", check, cases=reads, rule="every file over every interface"),
    Facet("history", check, history, quick=1000, rule="several reads and writes"),
]
