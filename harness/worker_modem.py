# Python 2.7 (Jython).  The modem, and the two tools, against a serial port and an MQTT client that live in memory.
import sys, os, time, types, threading
from collections import deque

G = {}          # the namespace of worker.py
real_sleep = time.sleep
real_time = time.time


class ShortSleep(object):
  """ time.sleep, without much sleeping: the clock moves on instead, when nothing is on its way to the modem """
  def __call__(self, d=0):
    real_sleep(0.0005)
    if threading.currentThread() is MAIN:
      TALLY["slept"] += d
      if all([l.quiet() for l in PORTS.values() or LINE if l is not None]): TALLY["skew"] += d


class Clock(object):
  """ time.time, which Jython's datetime uses as well """
  def __call__(self): return real_time() + TALLY["skew"]


MAIN = threading.currentThread()
TALLY = {"slept": 0, "skew": 0.0}


class FairLock(object):
  """ a lock which the thread that waits longest gets first, so that a thread which lets go does not take it again at once """
  def __init__(self, *a, **kw):
    from java.util.concurrent import Semaphore
    self._sem = Semaphore(1, True)

  def acquire(self, blocking=True):
    if blocking:
      self._sem.acquire()
      return True
    return self._sem.tryAcquire()

  __enter__ = acquire
  def release(self):
    if self._sem.availablePermits() > 0: raise RuntimeError("release of a lock which is not locked")
    self._sem.release()

  def __exit__(self, *a): self.release()
  def locked(self): return self._sem.availablePermits() == 0
  def let_go(self):
    self.release()
    return 1

  def take_back(self, n): self.acquire()


class FairRLock(object):
  def __init__(self, *a, **kw):
    from java.util.concurrent.locks import ReentrantLock
    self._lock = ReentrantLock(True)

  def acquire(self, blocking=True):
    if blocking:
      self._lock.lock()
      return True
    return self._lock.tryLock()

  __enter__ = acquire
  def release(self): self._lock.unlock()
  def __exit__(self, *a): self.release()
  def locked(self): return self._lock.isLocked()
  def let_go(self):
    n = self._lock.getHoldCount()
    for _ in range(n): self._lock.unlock()
    return n

  def take_back(self, n):
    for _ in range(n): self._lock.lock()


class FairCondition(object):
  """ threading.Condition, for the locks above """
  def __init__(self, lock=None):
    self.lock = lock if lock is not None else FairRLock()
    self.acquire, self.release = self.lock.acquire, self.lock.release
    self.waiting = []

  def __enter__(self): return self.acquire()
  def __exit__(self, *a): self.release()

  def wait(self, timeout=None):
    from java.util.concurrent import Semaphore, TimeUnit
    w = Semaphore(0)
    self.waiting.append(w)
    n = self.lock.let_go()
    try:
      if timeout is None: w.acquire()
      else:
        w.tryAcquire(int(timeout * 1000), TimeUnit.MILLISECONDS)
    finally:
      self.lock.take_back(n)
      if w in self.waiting: self.waiting.remove(w)

  def notify(self, n=1):
    for w in self.waiting[:n]:
      self.waiting.remove(w)
      w.release()

  def notifyAll(self): self.notify(len(self.waiting))
  notify_all = notifyAll


class SerialException(IOError):
  pass


class SerialTimeoutException(SerialException):
  pass


class Line(object):
  """ what is at the other side of the serial port """
  def __init__(self, plan):
    self.cond = threading.Condition()
    self.rx = deque()          # integers: bytes; None: the link breaks
    self.tx = bytearray()
    self.on_write = None
    self.opens = 0
    self.refuse = 0            # how many times opening fails
    self.readers = set()
    self.idle = False          # a reader found nothing, and waits
    self.cancelled = False
    self.slow = plan.get("slow", False)
    self.writes = 0
    self.args = []
    self.feeder = None

  def push(self, data):
    with self.cond:
      self.idle = False
      self.rx.extend(data)
      self.cond.notifyAll()

  def whole(self):
    """ what was written ends where a frame ends """
    return frames_end(self.tx) == len(self.tx)

  def quiet(self):
    return (self.feeder is None or not self.feeder.isAlive()) and (self.idle and not self.rx)

  def settled(self, timeout=20.0):
    """ wait until everything pushed was read, and handled """
    end = real_time() + timeout
    while real_time() < end:
      with self.cond:
        if not self.rx and self.idle: return True
        if self.readers and not any(t.isAlive() for t in self.readers): return False
        self.cond.wait(0.005)
    return False


LINE = [None]
PORTS = {}       # device -> line, when there are several


class Serial(object):
  def __init__(self, port=None, baudrate=9600, **kw):
    self.line = PORTS.get(port, LINE[0])
    self.line.args.append(dict(kw, port=port, baudrate=baudrate))
    if self.line.refuse > 0:
      self.line.refuse -= 1
      raise SerialException("could not open port")
    self.line.opens += 1
    self.is_open = True
    self.broken = False
    self.asked = 0
    self.port = port
    self.baudrate = baudrate
    self.timeout = kw.get("timeout")

  def isOpen(self): return self.is_open

  @property
  def in_waiting(self):
    with self.line.cond:
      self._check()
      n = 0
      for x in self.line.rx:
        if x is None: break
        n += 1
      if n == 0 and self.line.rx: return 1   # reading tells what happened
      self.asked = 0 if n else self.asked + 1
      if self.asked >= 3:        # polling; someone who asks once may be about to handle what was read before
        self.line.idle = True
        self.line.readers.add(threading.currentThread())
        self.line.cond.notifyAll()
      return n

  def inWaiting(self): return self.in_waiting

  def _check(self):
    if not self.is_open: raise SerialException("port is not open")
    if self.broken: raise SerialException("device disconnected")

  def read(self, size=1):
    line = self.line
    self.asked = 0
    out = bytearray()
    with line.cond:
      self._check()
      line.readers.add(threading.currentThread())
      end = None if self.timeout is None else real_time() + self.timeout
      while len(out) < size:
        if line.cancelled:
          line.cancelled = False
          break
        if line.rx:
          x = line.rx[0]
          if x is None:
            if out: break
            line.rx.popleft()
            line.refuse = line.rx.popleft()
            self.broken = True
            raise SerialException("device reports readiness to read but returned no data")
          out.append(line.rx.popleft())
          continue
        line.idle = True
        line.cond.notifyAll()
        if end is not None and real_time() >= end: break
        line.cond.wait(1.0 if end is None else max(0.001, end - real_time()))
        if not self.is_open: raise SerialException("port closed while reading")
    return bytes(out)

  def write(self, data):
    self._check()
    line = self.line
    data = bytearray(data)
    if line.slow:
      for b in data:
        line.tx.append(b)
        real_sleep(0)
    else:
      line.tx.extend(data)
    line.writes += 1
    if line.on_write is not None and line.whole(): line.on_write()
    return len(data)

  def flush(self): self._check()
  def reset_input_buffer(self): self._check()
  def reset_output_buffer(self): self._check()
  flushInput = reset_input_buffer
  flushOutput = reset_output_buffer

  def cancel_read(self):
    with self.line.cond:
      self.line.cancelled = True
      self.line.cond.notifyAll()

  def cancel_write(self): pass

  def close(self):
    with self.line.cond:
      self.is_open = False
      self.line.cond.notifyAll()

  def open(self):
    if self.line.refuse > 0:
      self.line.refuse -= 1
      raise SerialException("could not open port")
    self.line.opens += 1
    self.is_open = True
    self.broken = False


def fake_serial():
  m = types.ModuleType("serial")
  m.Serial = Serial
  m.SerialException = SerialException
  m.SerialTimeoutException = SerialTimeoutException
  m.PARITY_NONE, m.PARITY_EVEN, m.PARITY_ODD = "N", "E", "O"
  m.STOPBITS_ONE, m.STOPBITS_TWO = 1, 2
  m.FIVEBITS, m.SIXBITS, m.SEVENBITS, m.EIGHTBITS = 5, 6, 7, 8
  m.VERSION = "3.4"
  u = types.ModuleType("serial.serialutil")
  u.SerialException, u.SerialTimeoutException = SerialException, SerialTimeoutException
  m.serialutil = u
  sys.modules["serial"] = m
  sys.modules["serial.serialutil"] = u


class MqttClient(object):
  sent = []
  where = []
  def __init__(self, client_id="", clean_session=True, userdata=None, protocol=4, transport="tcp"):
    self.on_connect = self.on_message = None
    self.started = False

  def connect(self, host, port=1883, keepalive=60, bind_address=""):
    MqttClient.where.append([G["dump"](host), port])
    return 0

  connect_async = connect

  def loop_start(self):
    self.started = True
    if self.on_connect is not None: self.on_connect(self, None, {}, 0)

  def loop_stop(self, force=False): pass
  def disconnect(self): pass
  def subscribe(self, topic, qos=0): return (0, 1)

  def publish(self, topic, payload=None, qos=0, retain=False):
    if topic is None or len(topic) == 0: raise ValueError("Invalid topic.")
    if isinstance(payload, unicode): p = payload.encode("utf-8")
    elif isinstance(payload, (bytes, bytearray)): p = payload
    elif isinstance(payload, (int, float)): p = str(payload)
    elif payload is None: p = b""
    else: raise TypeError("payload must be a string, bytearray, int, float or None.")
    MqttClient.sent.append([topic, G["hx"](p)])
    return (0, len(MqttClient.sent))


def fake_paho():
  m, c, p = types.ModuleType("paho.mqtt"), types.ModuleType("paho.mqtt.client"), types.ModuleType("paho")
  c.Client = MqttClient
  c.MQTTv31, c.MQTTv311 = 3, 4
  c.MQTT_ERR_SUCCESS = 0
  m.client, p.mqtt = c, m
  sys.modules.update({"paho": p, "paho.mqtt": m, "paho.mqtt.client": c})


_loaded = []
def load_modem():
  if not _loaded:
    fake_serial()
    fake_paho()
    time.sleep = ShortSleep()
    time.time = Clock()
    import modem.modem
    _loaded.append(modem.modem)
  return _loaded[0]


def message(x):
  if isinstance(x, (int, long)): return {"int": x}
  if isinstance(x, (basestring, bytearray)): return {"raw": G["hx"](x)}
  if isinstance(x, G["Command"]): return {"cmd": G["dump"](x)}
  return {"other": type(x).__name__}


def crc(data):
  c = 0xFFFF
  for b in data:
    c ^= b << 8
    for _ in range(8): c = (c << 1 ^ 0x1021) & 0xFFFF if c & 0x8000 else c << 1
  return c


def frames_end(tx):
  p = 0
  while p + 7 <= len(tx): p += 7 + tx[p + 4]
  return p


def last_tag(tx):
  """ tag of the last whole frame written, which starts with a tag request """
  p = 0
  tag = None
  while p + 7 <= len(tx):
    n = tx[p + 4]
    if n >= 2 and p + 7 + n <= len(tx) and tx[p + 7] & 0x3F == 0x34: tag = tx[p + 8]
    p += 7 + n
  return tag


def symbols(items, tag=None):
  """ [["b", hex], ["fail", n], ["t", before, answer byte, after]] -> what to put on the line; t is a response to the command just written """
  out = []
  for it in items:
    if it[0] == "b": out.extend(G["unhx"](it[1]))
    elif it[0] == "t":
      p = bytearray(G["unhx"](it[1])) + bytearray([it[2], ((tag or 0) + it[4]) % 256]) + bytearray(G["unhx"](it[3]))
      c = crc(p)
      out.extend(bytearray([0xC0, 0, 1, 1, len(p), c >> 8, c & 255]) + p)
    else: out.extend([None, it[1]])
  return out


class Bench(object):
  def __init__(self, plan, peers=None):
    self.plan = plan
    self.line = LINE[0] = Line(plan)
    self.peers = [self]
    if peers is not None:
      self.peers = peers
      peers.append(self)
      PORTS[plan["device"]] = self.line
    self.cb, self.rcb = [], []
    self.paused = False
    M = load_modem()
    kw = {}
    self.echo = [G["make"](c) for c in plan.get("echo", [])]
    def received(c):
      self.cb.append(message(c))
      if self.echo: self.m.execute_command_async(self.echo.pop(0))
    if plan.get("callback"): kw["unsolicited_response_received_callback"] = received
    if plan.get("reboot_callback"): kw["rebooted_callback"] = lambda c: self.rcb.append(message(c))
    if plan.get("raw"): kw["skip_alp_parsing"] = True
    locks = threading.Lock, threading.RLock, threading.Condition
    if plan.get("slow"): threading.Lock, threading.RLock, threading.Condition = FairLock, FairRLock, FairCondition
    try: self.m = M.Modem(plan.get("device", "/dev/scratch"), plan.get("baud", 115200), **kw)
    finally: threading.Lock, threading.RLock, threading.Condition = locks

  def state(self, ok):
    m = self.m
    return {"settled": ok, "cb": list(self.cb), "rcb": list(self.rcb), "tx": G["hx"](self.line.tx),
            "unsol": [message(c) for c in m.get_unsolicited_responses_received()],
            "reboots": [message(c) for c in m.get_rebooted_received()],
            "connected": bool(m.connected), "uid": G["dump"](m.uid), "fw": G["dump"](m.firmware_version), "opens": self.line.opens}

  def arm(self, replies):
    """ replies: [phase, item, which modem gets it]: phase w: handled before the write returns; f: arriving afterwards """
    line = self.line
    if not replies: return
    def push(r, tag): (self.peers[r[2]].line if len(r) > 2 else line).push(symbols([r[1]], tag))
    def fired():
      line.on_write = None
      tag = last_tag(line.tx)
      early = [r for r in replies if r[0] == "w"]
      late = [r for r in replies if r[0] != "w"]
      if early:
        if len(self.peers) == 1: line.push(symbols([r[1] for r in early], tag))
        else:
          for r in early: push(r, tag)
        for b in self.peers: b.line.settled(5)
      if late:
        def feed():
          for r in late:
            real_sleep(0.05 if r[1][0] == "fail" else 0.001)      # not before the writer has flushed
            push(r, tag)
        line.feeder = threading.Thread(target=feed)
        line.feeder.setDaemon(True)
        line.feeder.start()
    line.on_write = fired

  def finish(self):
    if self.line.feeder is not None:
      self.line.feeder.join(20)
      self.line.feeder = None
    self.line.on_write = None
    return True if self.paused else all([b.line.settled() for b in self.peers])

  def timed(self, fn):
    TALLY["slept"] = TALLY["skew"] = 0
    t = real_time()
    try:
      r = fn()
    finally:
      self.took = real_time() - t
      self.waited = self.took + TALLY["skew"]
      self.slept = TALLY["slept"]
    return r

  def step(self, st):
    k = st[0]
    r = {}
    if k == "feed":
      self.line.push(symbols(st[1]))
    elif k == "connect":
      self.arm(st[2])
      r["ret"] = self.timed(lambda: G["attempt"](lambda: {"v": G["dump"](self.m.connect(*st[1]))}))
    elif k == "exec":
      cmd = G["make"](st[1])
      self.arm(st[3])
      def call():
        x = self.m.execute_command(cmd, timeout_seconds=st[2])
        return {"list": [message(c) for c in x]} if isinstance(x, list) else {"v": G["dump"](x)}
      r["ret"] = self.timed(lambda: G["attempt"](call))
    elif k == "async":
      cmd = G["make"](st[1])
      self.arm(st[2])
      r["ret"] = self.timed(lambda: G["attempt"](lambda: {"v": G["dump"](self.m.execute_command_async(cmd))}))
    elif k == "crowd":
      cmds = [[G["make"](c) for c in cs] for cs in st[1]]
      go = threading.Event()
      def run(cs):
        go.wait(10)
        for c in cs: self.m.execute_command_async(c)
      ts = [threading.Thread(target=run, args=(cs,)) for cs in cmds]
      for t in ts: t.setDaemon(True)
      for t in ts: t.start()
      real_sleep(0.001)
      go.set()
      for t in ts: t.join(30)
      r["hung"] = any(t.isAlive() for t in ts)
    elif k == "clear_unsol": self.m.clear_unsolicited_responses_received()
    elif k == "clear_reboots": self.m.clear_rebooted_received()
    elif k == "pause":        # what is pushed here may be read before, or after the pause
      self.line.push(symbols(st[1]))
      if not st[1]: self.line.settled()
      r["stopped"] = self.stop()
      self.paused = True
    elif k == "resume":
      with self.line.cond:
        self.line.readers.clear()
        self.line.idle = False
      self.m.start_reading()
      self.paused = False
    elif k == "stop":
      r["stopped"] = self.stop()
      r.update(self.state(True))
      return r
    if "ret" in r: r["took"], r["slept"], r["waited"] = self.took, self.slept, self.waited
    r.update(self.state(self.finish()))
    return r

  def stop(self):
    t = threading.Thread(target=self.m.stop_reading)
    t.setDaemon(True)
    t.start()
    t.join(10)
    return not t.isAlive() and not any(x.isAlive() for x in self.line.readers)


def at_once(peers, execs):
  """ executions by several modems at the same time, each waited for by a thread of its own """
  got, ts, go = {}, [], threading.Event()
  def run(i, cmd):
    go.wait(10)
    got[i] = G["attempt"](lambda: {"list": [message(c) for c in peers[i].m.execute_command(cmd, timeout_seconds=600)]})
  for (i, cmd, replies) in execs:
    peers[i].arm(replies)
    ts.append(threading.Thread(target=run, args=(i, G["make"](cmd))))
  for t in ts:
    t.setDaemon(True)
    t.start()
  go.set()
  end = real_time() + 20
  for t in ts: t.join(max(0.01, end - real_time()))
  for (i, cmd, replies) in execs: peers[i].finish()
  return {"rets": [got.get(i) for (i, cmd, replies) in execs]}


def op_modems(q):
  """ several modems at different devices """
  PORTS.clear()
  peers, out = [], []
  try:
    for p in q["plans"]: Bench(p, peers)
    for st in q["steps"]:
      def one():
        r = at_once(peers, st[2]) if st[1] == "both" else peers[st[0]].step(st[1:])
        return {"own": r, "all": [b.state(b.line.settled()) for b in peers]}
      out.append(G["attempt"](one))
      if "exc" in out[-1]: break
  finally:
    for b in peers:
      try: b.stop()
      except Exception: pass
    PORTS.clear()
  return {"steps": out, "args": [[port_args(a) for a in b.line.args] for b in peers]}


PORT = [("port", None), ("baudrate", 9600), ("bytesize", 8), ("parity", "N"), ("stopbits", 1), ("xonxoff", False), ("rtscts", False), ("dsrdtr", False)]


def port_args(a): return [a.get(k, d) for k, d in PORT]


def op_modem(q):
  b = Bench(q["plan"])
  out = []
  try:
    for st in q["steps"]:
      out.append(G["attempt"](lambda: b.step(st)))
      if "exc" in out[-1]: break
  finally:
    try:
      if not (q["steps"] and q["steps"][-1][0] == "stop"): b.stop()
    except Exception: pass
  return {"steps": out, "args": [port_args(a) for a in b.line.args]}


_tool = {}
def op_gateway(q):
  """ the MQTT gateway """
  load_modem()
  import logging
  path = os.path.join(G["REPO"], "tools", "modem2mqtt.py")
  modem2mqtt = types.ModuleType("modem2mqtt")
  modem2mqtt.__file__ = path
  if path not in _tool: _tool[path] = compile(open(path).read(), path, "exec")
  exec _tool[path] in modem2mqtt.__dict__
  LINE[0] = Line({})
  MqttClient.sent, MqttClient.where = [], []
  argv, handlers, level = sys.argv, list(logging.getLogger().handlers), logging.getLogger().level
  sys.argv = ["modem2mqtt.py"] + [str(a) for a in q["argv"]]
  out = []
  gw = None
  try:
    if q.get("startup"):
      def fired():
        LINE[0].on_write = None
        LINE[0].push(symbols(q["startup"]))
        LINE[0].settled(5)
      LINE[0].on_write = fired
    gw = modem2mqtt.Modem2Mqtt()
    LINE[0].on_write = None
    LINE[0].settled()
    for st in q["feeds"]:
      if st == "mqtt":
        m = types.ModuleType("message")
        m.topic, m.payload, m.qos, m.retain = "x", b"\x01\x40\xff", 0, False
        gw.mq.on_message(gw.mq, None, m)
        st = []
      LINE[0].push(symbols(st))
      ok = LINE[0].settled()
      out.append({"settled": ok, "sent": list(MqttClient.sent)})
    return {"steps": out, "tx": G["hx"](LINE[0].tx), "where": MqttClient.where, "args": [port_args(a) for a in LINE[0].args]}
  finally:
    sys.argv = argv
    if gw is not None:
      try: gw.modem.stop_reading()
      except Exception: pass
    logging.getLogger().handlers = handlers
    logging.getLogger().setLevel(level)


class _Capture(object):
  def __init__(self): self.parts = []
  def write(self, s): self.parts.append(s if isinstance(s, unicode) else s.decode("latin-1"))
  def flush(self): pass


def op_hexstring(q):
  """ the command-line tool, in this process """
  path = os.path.join(G["REPO"], "tools", "parse_hexstring.py")
  out = []
  for it in q["items"]:
    if path not in _tool: _tool[path] = compile(open(path).read(), path, "exec")
    argv, so = sys.argv, sys.stdout
    cap = _Capture()
    r = {}
    sys.argv = [path] + [str(a) for a in it["argv"]]
    sys.stdout = cap
    try:
      try:
        exec _tool[path] in {"__name__": "__main__", "__file__": path, "exit": sys.exit, "quit": sys.exit}
      except SystemExit, e:
        r["exit"] = e.code if isinstance(e.code, (int, long)) or e.code is None else str(e.code)
      except:
        r.update(G["exc_info"]())
    finally:
      sys.argv, sys.stdout = argv, so
    r["out"] = "".join(cap.parts)
    # what the library makes of the same bytes
    cap = sys.stdout = _Capture()
    try: r["lib"] = G["attempt"](lambda: library(it))
    finally: sys.stdout = so
    r["chat"] = "".join(cap.parts)      # what the library itself prints meanwhile
    out.append(r)
  return {"items": out}


def library(it):
  data = G["unhx"](it["hex"])
  t = it["type"]
  if t == "alp": return {"objs": [G["text"](G["AlpParser"]().parse(G["stream"](it["hex"]), len(data)))]}
  if t == "serial":
    (_, cmds, info) = G["SerialParser"]().parse(data)
    return {"objs": [G["text"](c) for c in cmds], "info": G["text"](info)}
  if t in ("fg", "bg"):
    (frames, info) = G["DllParser"](G["FrameType"].FOREGROUND if t == "fg" else G["FrameType"].BACKGROUND).parse(data)
    return {"objs": [G["text"](c) for c in frames], "info": G["text"](info)}
  f = G["SystemFiles"]().files[G["SystemFileIds"](it["id"])]
  return {"objs": [G["text"](f.parse(G["stream"](it["hex"])))]}


def register(ops, g):
  G.update(g)
  ops["modem"] = op_modem
  ops["modems"] = op_modems
  ops["gateway"] = op_gateway
  ops["hexstring"] = op_hexstring
