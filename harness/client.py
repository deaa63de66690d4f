"""A Jython process that runs the code under test, driven over stdin/stdout with JSON lines."""
import ctypes, json, os, select, signal, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUT_REPO", "/repo")
JAR = "/usr/share/java/jython.jar"


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL, 0, 0, 0)


class HarnessError(BaseException):
    """The machinery itself failed: never a verdict about the code."""


class Hang(BaseException):
    """A request got no answer in time, twice, the second time on a fresh process."""
    def __init__(self, req):
        super().__init__("no answer from the code under test")
        self.req = req


class Crash(BaseException):
    """A request made the process exit, twice, the second time on a fresh process."""
    def __init__(self, req):
        super().__init__("the process running the code under test exited")
        self.req = req


class _Dead(Exception):
    pass


class _Timeout(Exception):
    pass


class Worker:
    def __init__(self, real_cerberus=False, timeout=30.0, java_opts=None):
        self.real = real_cerberus
        self.timeout = timeout
        self.java_opts = java_opts if java_opts is not None else os.environ.get("VERIF_JAVA_OPTS", "").split()
        self.p = None
        self.requests = 0
        self.started = False

    def start(self, wait=True):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_", "HYPOTHESIS"))}
        env.update(JYTHONPATH="/opt/jydeps/site", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", SUT_REPO=REPO)
        if self.real:
            env["SUT_REAL_CERBERUS"] = "1"
        cmd = ["java", "-Xmx1500m", "-Xss16m", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-Xshare:auto"] + self.java_opts + [
            "-Dpython.home=/usr/share/jython", "-Dpython.cachedir.skip=true", "-jar", JAR, "-B",
            os.path.join(HERE, "worker.py")]
        self.err = open("/tmp/verif_worker_%d_%d.err" % (os.getpid(), id(self)), "w+b")
        os.unlink(self.err.name)
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd="/", start_new_session=True, preexec_fn=_die_with_parent)
        self.buf = b""
        self.started = False
        if wait:
            self.wait_ready()

    def wait_ready(self):
        if self.started:
            return
        try:
            r = self._readline(240)
        except (_Dead, _Timeout):
            err = self.stderr()
            self.close()
            raise StartFailure(err)
        if "ready" not in r:
            raise HarnessError("bad greeting %r" % r)
        self.started = True

    def stderr(self):
        try:
            self.err.seek(0)
            return self.err.read().decode("utf8", "replace")[-3000:]
        except Exception:
            return "?"

    def close(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.p.wait()
            self.p = None
            self.err.close()

    def _readline(self, timeout):
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                raise _Timeout()
            d = os.read(fd, 1 << 16)
            if not d:
                raise _Dead()
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def _once(self, data, timeout):
        if self.p is None:
            self.start()
        self.wait_ready()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise _Dead()
        return self._readline(timeout)

    def call(self, op, **kw):
        kw["op"] = op
        data = (json.dumps(kw) + "\n").encode()
        self.requests += 1
        try:
            return self._once(data, self.timeout)
        except (_Dead, _Timeout):
            self.close()
        # once more, on a fresh process and with more time, before saying anything about the code
        try:
            return self._once(data, 2 * self.timeout)
        except _Timeout:
            self.close()
            raise Hang(kw)
        except _Dead:
            self.close()
            raise Crash(kw)


class StartFailure(BaseException):
    """The program under test cannot even be imported."""
