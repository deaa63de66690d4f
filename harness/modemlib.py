"""Reference model of the modem: which message goes where."""
from common import *
from ref import Receiver, serial_frame


class World:
    def __init__(self, plan):
        self.plan = plan
        self.rc = Receiver(bool(plan.get("raw")))
        self.connected = False
        self.cb, self.rcb, self.unsol, self.reboots = [], [], [], []    # (message, may be missing)
        self.tx = b""
        self.up = 0
        self.echo = list(plan.get("echo", []))
        self.running = False
        self.opens = 1
        self.pending = None         # arrived while reading is stopped
        self.tag = None             # tag of the execution in progress, or last completed or timed out
        self.own, self.done, self.late = [], False, []
        self.seen = {"own": 0, "other": 0, "log": 0, "boot": 0}

    def executing(self, tag):
        self.tag, self.own, self.done, self.late = tag, [], False, []
        self.running = True

    def bytes(self, data):
        for m in self.rc.feed(data)["msgs"]:
            self.dispatch(m)

    def dispatch(self, m):
        mt = m.pop("mt")
        if mt == 4:
            self.seen["log"] += 1
            return
        if mt == 5:
            self.seen["boot"] += 1
            (self.rcb if self.plan.get("reboot_callback") else self.reboots).append((m, False))
            return
        if not 1 <= mt <= 3:
            raise Discard()
        floating = False
        if "cmd" in m and self.tag is not None and m["cmd"]["tag_id"] == self.tag:
            self.seen["own"] += 1
            if self.running and not self.done:
                self.own.append(m)
                self.done = m["cmd"]["execution_completed"]
                return
            self.late.append(m)
            floating = True     # after completion or timeout: not specified where it goes
        else:
            self.seen["other"] += 1
        to = self.cb if self.plan.get("callback") and self.connected else self.unsol
        to.append((m, floating))
        if to is self.cb and self.echo:     # the callback sends a command of its own
            sent(self, self.echo.pop(0))
            self.tag = None

    def items(self, items, cut=False):
        for it in items:
            if it[0] == "b":
                self.bytes(bytes.fromhex(it[1]))
            else:
                if self.rc.buf and not cut:     # what becomes of the bytes kept is not specified
                    raise Discard()
                self.opens += 1

    def returned(self):
        """the execution returned: what it collected is no longer waited for"""
        if not self.done:       # timed out: not specified where the incomplete responses go
            for m in self.own:
                (self.cb if self.plan.get("callback") and self.connected else self.unsol).append((m, True))
        self.running = False


def unordered_floats(exp):
    return [m for m, f in exp if not f], [m for m, f in exp if f]


def listed(got, exp, what):
    """got holds every certain message exactly once and in order, and otherwise only uncertain ones"""
    sure, maybe = unordered_floats(exp)
    if got == sure:
        return
    rest = list(sure)
    extra = list(maybe)
    for i, g in enumerate(got):
        if rest and g == rest[0]:
            rest.pop(0)
        elif g in extra:
            extra.remove(g)
        else:
            raise Violation("%s: entry %d is %s; expected %s" % (what, i, short(g, 300), short(rest[0], 300) if rest else "no more (%d in all)" % len(sure)))
    need(not rest, "%s: %d of %d are missing, first %s", what, len(rest), len(sure), short(rest[:1], 300))


def frame_of(payload, counter=1, mt=1):
    return serial_frame(payload, counter, mt)


def compare(w, s, world, what):
    need(s["settled"], "%s: the modem no longer reads from the serial port", what)
    listed(s["cb"], world.cb, what + ": responses passed to the callback")
    listed(s["unsol"], world.unsol, what + ": unsolicited responses kept")
    listed(s["rcb"], world.rcb, what + ": reboots passed to the callback")
    listed(s["reboots"], world.reboots, what + ": reboots kept")
    same(s["connected"], world.connected, what + ": connected")


def sent(world, cmd):
    """the command is written, as the next frame"""
    world.tx += serial_frame(enc(cmd), world.up)
    world.up = (world.up + 1) % 256


def crowd(world, cmds, tx, what):
    """the frames of several threads: all of them, each in one piece, with consecutive counters"""
    need(tx.startswith(world.tx), "%s: what was written before has changed", what)
    p, got = len(world.tx), []
    while p < len(tx):
        n = tx[p + 4] if p + 4 < len(tx) else 0
        f = tx[p:p + 7 + n]
        need(len(f) >= 7 and f == serial_frame(f[7:], f[2]), "%s: the bytes written by several threads are no frames, from %s", what, short(tx[p:].hex(), 200))
        need(f[2] == world.up, "%s: counter %d instead of %d, at %s", what, f[2], world.up, short(tx[p:].hex(), 200))
        world.up = (world.up + 1) % 256
        got.append(f[7:].hex())
        p += len(f)
    same(sorted(got), sorted(enc(c).hex() for cs in cmds for c in cs), what + ": commands written by several threads")
    world.tx = tx


class Story:
    """what one modem does, step by step, against its world"""
    def __init__(self, w, plan, rec, check=None, worlds=None):
        self.w, self.plan, self.rec, self.check = w, plan, rec, check
        self.world = World(plan)
        self.frozen, self.sure = None, False
        self.worlds = worlds        # of all modems, when there are several
        if worlds is not None:
            worlds.append(self.world)

    def step(self, i, st, s, what):
        plan, rec, world = self.plan, self.rec, self.world
        k = st[0]
        if k in ("feed", "pause") and world.pending is not None or k == "pause" and st[1]:
            world.pending = (world.pending or []) + st[1]      # delivered when reading goes on; those of the pause maybe earlier
        elif k == "feed":
            world.items(st[1])
        elif k == "pause":
            world.pending = []
        elif k == "resume":
            world.items(world.pending)
            world.pending = self.frozen = None
        elif k == "connect":
            if self.check is None:
                need(st[1] == [False], "bad case")
                need(s["ret"] == {"v": True} or world.connected and s["ret"] == {"v": None}, "%s gave %s", what, s["ret"])
                world.connected = True
            else:
                self.check(world, st, s, what)
        elif k == "exec":
            cmd = st[1]
            sent(world, cmd)
            sync = not plan.get("raw") and st[2] > 0
            world.executing(cmd["tag_id"] if sync else None)
            for r in st[3]:
                (self.worlds[r[2]] if len(r) > 2 else world).items([r[1]])
            got = ok(s["ret"], what)
            need("list" in got, "%s returned %s", what, short(got, 200))
            if sync and world.done:
                n = len(world.own)
                same(got["list"][:n], world.own, what + ": responses returned for tag %s" % cmd["tag_id"])
                listed(got["list"][n:], [(m, True) for m in world.late], what + ": further responses returned")
                rec.label("completed", "responses=%d" % n)
            else:
                same(got["list"], [], what + ": responses returned though no completing one arrived")
                need(not sync or s["waited"] >= 0.9 * st[2] - 0.1, "%s gave up after %.2f s, though told to wait %s s", what, s["waited"], st[2])
                need(not sync or s["waited"] <= st[2] + 8, "%s gave up only after %.2f s, though told to wait %s s", what, s["waited"], st[2])
                rec.label("timeout" if sync else "no-wait")
            if not sync:
                need(s["slept"] <= 1 and s["took"] < 8, "%s waited (%.1f s)", what, s["took"])
            world.returned()
        elif k == "async":
            sent(world, st[1])
            world.executing(None)
            for r in st[2]:
                (self.worlds[r[2]] if len(r) > 2 else world).items([r[1]])
            ok(s["ret"], what)
            need(s["slept"] <= 1 and s["took"] < 8, "%s waited (%.1f s)", what, s["took"])
        elif k == "crowd":
            need(not s["hung"], "%s: executing commands from several threads did not end", what)
            crowd(world, st[1], bytes.fromhex(s["tx"]), what)
        elif k == "clear_unsol":
            world.unsol = []
        elif k == "clear_reboots":
            world.reboots = []
        elif k == "stop":
            need(s["stopped"], "%s: the receive loop did not end", what)
        if k == "pause":
            need(s["stopped"], "%s: the receive loop did not end", what)
        if world.pending is not None:
            now = {x: s[x] for x in ("cb", "unsol", "rcb", "reboots", "opens")}
            if self.frozen is not None and k not in ("clear_unsol", "clear_reboots"):
                same(now, self.frozen, what + ": what was delivered up to now, while reading is stopped")
            self.frozen = now
            self.sure = k == "pause" and not world.pending
        self.compare(s, what)

    def compare(self, s, what):
        world = self.world
        if world.pending is None or self.sure:
            compare(self.w, s, world, what)
            same(s["opens"], world.opens, what + ": number of times the serial port was opened")
        same(s["connected"], world.connected, what + ": connected")
        same(s["tx"], world.tx.hex(), what + ": bytes written to the device")


def run(w, plan, steps, rec, check=None):
    """steps: feed / connect / exec / async / clear_unsol / clear_reboots / stop"""
    r = ok(w.call("modem", plan=plan, steps=steps), "the modem")
    story = Story(w, plan, rec, check)
    for a in r["args"]:
        same(a, [plan.get("device", "/dev/scratch"), plan.get("baud", 115200), 8, "N", 1, False, False, False],
             "serial port opened (device, baud rate, bits, parity, stop bits, three kinds of flow control)")
    for i, st in enumerate(steps):
        what = "step %d (%s)" % (i, st[0])
        need(i < len(r["steps"]), "%s did not happen", what)
        story.step(i, st, ok(r["steps"][i], what), what)
    return story.world, r


def several(plans, steps, results, rec):
    """steps: [which modem, step...]; each of the modems is as if it were alone"""
    worlds = []
    stories = [Story(None, p, rec, worlds=worlds) for p in plans]
    for i, st in enumerate(steps):
        what = "step %d (%s of modem %d)" % (i, st[1], st[0])
        need(i < len(results), "%s did not happen", what)
        r = ok(results[i], what)
        if st[1] == "feed" and any(x[0] == "fail" for x in st[2]):
            probe = Receiver()
            probe.buf = worlds[st[0]].rc.buf
            for x in st[2]:
                if x[0] == "b":
                    probe.feed(bytes.fromhex(x[1]))
                elif probe.buf:
                    raise Discard()
        if st[1] == "both":
            for (j, cmd, replies), got in zip(st[2], r["own"]["rets"]):
                x = worlds[j]
                at = "%s, modem %d" % (what, j)
                sent(x, cmd)
                x.executing(cmd["tag_id"])
                x.items([y[1] for y in replies])
                need(got is not None, "%s: the execution did not end, though its response arrived", at)
                n = len(x.own)
                same(ok(got, at)["list"][:n], x.own, at + ": responses returned")
                listed(got["list"][n:], [(m, True) for m in x.late], at + ": further responses returned")
                x.returned()
        else:
            stories[st[0]].step(i, st[1:], r["own"], what)
        for j, (g, s) in enumerate(zip(r["all"], stories)):
            s.compare(g, what + ", modem %d" % j)
    return worlds


# ---------------------------------------------------------------- pieces of histories

TAG = st.integers(0, 255)


@st.composite
def command(draw, limit=40, tags=True):
    """a command to execute"""
    acts = draw(st.lists(gen.built_action(12), max_size=2))
    while sum(len(enc(a)) for a in acts) > limit:
        acts.pop()
    tagged = draw(st.integers(0, 7)) > 0 or not tags
    return {"t": "Command", "actions": acts, "generate_tag_request_action": tagged, "tag_id": draw(TAG) if tagged else None,
            "send_tag_response_when_completed": draw(gen.BOOL)}


def tagresp(tag, eop, err):
    return {"t": "TagResponseAction", "eop": eop, "error": err, "operation": {"t": "TagResponse", "operand": {"t": "TagId", "tag_id": tag}}}


def tagreq(tag, resp):
    return {"t": "TagRequestAction", "respond_when_completed": resp, "operation": {"t": "TagRequest", "operand": {"t": "TagId", "tag_id": tag}}}


@st.composite
def response(draw, tag, eop, mt=None):
    """a frame holding a response with this tag (None: without)"""
    acts = draw(st.lists(gen.regular(*gen.wire_ops(8)), max_size=2))
    if draw(st.integers(0, 5)) == 0:
        acts.insert(draw(st.integers(0, len(acts))), draw(gen.interface_status))
    while sum(len(enc(a)) for a in acts) > 200:
        acts.pop()
    if tag is not None:
        acts.insert(draw(st.integers(0, len(acts))), tagresp(tag, eop, draw(gen.BOOL)))
    return serial_frame(b"".join(enc(a) for a in acts), draw(gen.BYTE), mt or draw(st.sampled_from([1, 1, 1, 2, 3])))


@st.composite
def other(draw, tag, junk=True):
    """something that is no response to the tag"""
    k = draw(st.integers(0, 9))
    if k <= 3:
        t = draw(TAG)
        return draw(response((t + 1) % 256 if t == tag else t, draw(gen.BOOL)))
    if k == 4:
        return draw(response(None, False))
    if k == 5:
        return serial_frame(draw(gen.RAW), draw(gen.BYTE), 4)
    if k == 6:      # logging text that looks like the response
        return serial_frame(enc(tagresp(tag or 0, True, False)), draw(gen.BYTE), 4)
    if k == 7:
        return serial_frame(bytes([draw(gen.BYTE)]), draw(gen.BYTE), 5)
    if k == 8 or not junk:
        t = draw(TAG)
        return serial_frame(enc(tagreq((t + 1) % 256 if t == tag else t, draw(gen.BOOL))), draw(gen.BYTE), 1)
    return draw(st.one_of(gen.undecodable().map(lambda p: serial_frame(p, 3, 1)), st.binary(max_size=6).map(lambda b: b.replace(b"\xc0", b"\xc1"))))


def breaks(draw, often=4):
    """sometimes, the link fails"""
    return [["feed", [["fail", draw(st.integers(0, 2))]]]] if draw(st.integers(0, often)) == 0 else []


@st.composite
def pieces(draw, frames):
    """the frames, cut differently"""
    b = b"".join(frames)
    k = draw(st.integers(0, 2))
    if k == 0:
        return [f for f in frames if f]
    if k == 1:
        return [b] if b else []
    return [x for x in gen.split(b, sorted(draw(st.lists(st.integers(0, len(b)), max_size=4)))) if x]
