"""Runs of the real smd binary against the stand-in for Chrome, with every
step of the browser in the hands of the driver."""
import base64, json, os, queue, resource, socket, subprocess, sys, threading, time
from common import *
from cli import env_for

_chrome, _chromelock = None, threading.Lock()


def chrome():
    global _chrome
    with _chromelock:
        if _chrome is None:
            p = os.path.join(newdir("chrome"), "chrome")
            with open(p, "w") as fh:
                fh.write(f"#!{sys.executable} -SE\n" + open(os.path.join(VERIF, "run", "fakechrome.py")).read())
            os.chmod(p, 0o755)
            _chrome = p
    return _chrome


class Gone(Exception):
    """The run ended (or its browser did) while a step was awaited."""


class Instance:
    """One browser process: its current step and the answers given."""

    def __init__(self, conn):
        self.f = conn.makefile("rwb", buffering=0)
        self.steps = queue.Queue()
        self.printed = []
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        try:
            for line in self.f:
                m = json.loads(line)
                if m["step"] == "print":
                    self.printed.append((base64.b64decode(m["content"]), base64.b64decode(m["pdf"])))
                self.steps.put(m)
        except (OSError, ValueError):
            pass
        self.steps.put(None)

    def answer(self, d):
        try:
            self.f.write((json.dumps(d) + "\n").encode())
        except OSError:
            pass


class Run:
    """A run of a program that starts browsers. Steps not in `gated` are
    answered at once, with `policy[step]` if present."""

    def __init__(self, argv, cwd, home, tmp, gated=(), policy=None, launch=None, hold=False, fsize=None, user=None, **env):
        self.policy, self.gated, self.launch = policy or {}, set(gated), launch or {}
        self.sock = os.path.join(newdir("ctl"), "s")
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(self.sock)
        self.srv.listen(64)
        if user:
            os.chmod(os.path.dirname(self.sock), 0o755)
            os.chmod(self.sock, 0o777)
        self.inst = []
        self.arrived = queue.Queue()
        threading.Thread(target=self.accept, daemon=True).start()
        e = env_for(home, TMPDIR=tmp, CHROME=chrome(), FAKE_CHROME_CTL=self.sock)
        e.update({k: v for k, v in env.items() if v is not None})
        e = {k: v for k, v in e.items() if v is not None}

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        # the process waits before it becomes smd, so that its pid is known first
        self.p = subprocess.Popen(["/bin/sh", "-c", 'read x; exec "$@"', "sh", *argv], cwd=cwd, env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, restore_signals=False,
                                  **({"user": user, "group": user, "extra_groups": []} if user else {}))
        self.pid = self.p.pid
        self.out = [b"", b""]
        self.readers = [threading.Thread(target=self.drain, args=(i, f), daemon=True) for i, f in enumerate((self.p.stdout, self.p.stderr))]
        for t in self.readers:
            t.start()
        if not hold:
            self.go()

    def go(self):
        self.p.stdin.write(b"\n")
        self.p.stdin.close()

    def drain(self, i, f):
        self.out[i] = f.read()

    def accept(self):
        while True:
            try:
                c, _ = self.srv.accept()
            except OSError:
                return
            x = Instance(c)
            self.inst.append(x)
            threading.Thread(target=self.pump, args=(x,), daemon=True).start()

    def pump(self, x):
        while True:
            m = x.steps.get()
            if m is None:
                return
            if m["step"] in self.gated:
                self.arrived.put((x, m))
            else:
                x.answer(self.reply(m["step"]))

    def reply(self, step, d=None):
        return dict(self.launch if step == "launch" else {}, **(self.policy.get(step, {}) if d is None else d))

    def step(self, timeout=90):
        """The next gated step, or None when the program has ended."""
        end = time.time() + timeout
        while time.time() < end:
            try:
                return self.arrived.get(timeout=0.02)
            except queue.Empty:
                if self.p.poll() is not None and self.arrived.empty():
                    return None
        self.p.kill()
        raise ToolError("a run neither ended nor took its next step")

    def wait(self, timeout=100):
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = None
        for t in self.readers:
            t.join(5)
        self.srv.close()
        self.rc, self.stdout, self.stderr = rc, self.out[0], self.out[1]
        return rc

    def printed(self):
        return [p for x in self.inst for p in x.printed]
