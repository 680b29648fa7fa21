"""A stand-in for Chrome: speaks the part of the DevTools protocol a printing
client uses over a websocket, loads file URLs as a browser does, and asks the
driver (a unix socket, FAKE_CHROME_CTL) before every step what to do. Copied
to the scratch directory with a shebang line and started by smd itself."""
import base64, hashlib, json, os, socket, struct, sys, threading, time

ARGS = sys.argv[1:]
PORT = int(next(a.split("=", 1)[1] for a in ARGS if a.startswith("--remote-debugging-port=")))


class Ctl:
    """The driver: every step is announced and waits for the answer."""

    def __init__(self):
        p = os.environ.get("FAKE_CHROME_CTL")
        self.f = None
        self.lock = threading.Lock()
        if p:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.connect(p)
            self.f = s.makefile("rwb", buffering=0)

    def ask(self, step, **kw):
        if not self.f:
            return {}
        with self.lock:
            self.f.write((json.dumps(dict(step=step, pid=os.getpid(), ppid=os.getppid(), **kw)) + "\n").encode())
            line = self.f.readline()
        if not line:
            os._exit(3)
        return json.loads(line)


ctl = Ctl()


def say(s):
    os.write(2, (s + "\n").encode())


def unquote(s):
    out, b, i = bytearray(), s.encode("utf-8", "surrogateescape"), 0
    while i < len(b):
        if b[i] == 37 and i + 2 < len(b) + 0 and all(chr(c) in "0123456789abcdefABCDEF" for c in b[i + 1:i + 3]) and len(b[i + 1:i + 3]) == 2:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def load(url):
    """What the page of a URL shows, as a browser resolves it."""
    u = url.strip(" ").replace("\t", "").replace("\n", "").replace("\r", "")
    if not u.startswith("file://"):
        return None, b"ERROR unsupported " + u.encode("utf-8", "replace")
    u = u[7:].replace("\\", "/").split("#", 1)[0].split("?", 1)[0]
    path = unquote(u)
    try:
        with open(path, "rb") as fh:
            return path, fh.read()
    except OSError as e:
        return path, b"ERROR " + str(e.errno).encode()


def pdf(content, nonce):
    """The bytes printed for a page: all byte values, the page, the nonce."""
    return b"%PDF-1.4\n" + bytes(range(256)) + b"\r\n" + struct.pack(">I", len(content)) + content + b"\n" + nonce.encode() + b"\x00\xff\n%%EOF\n"


class Chrome:
    def __init__(self):
        self.tabs, self.sessions, self.n = {}, {}, 0
        self.wlock = threading.Lock()

    def serve(self):
        srv = socket.socket()
        srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            srv.bind(("127.0.0.1", PORT))
        except OSError:
            say("ERROR:socket bind() failed")
            os._exit(1)
        srv.listen(1)
        d = ctl.ask("launch", port=PORT)
        if d.get("fail") == "root":
            say("[1:1] Running as root without --no-sandbox is not supported. See https://crbug.com/638180.")
            time.sleep(20)
            os._exit(1)
        self.cfg = d
        say(f"DevTools listening on ws://127.0.0.1:{PORT}/devtools/browser/0")
        self.c, _ = srv.accept()
        self.c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        head = b""
        while b"\r\n\r\n" not in head:
            x = self.c.recv(4096)
            if not x:
                os._exit(0)
            head += x
        if d.get("fail") == "refuse":
            self.c.sendall(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
            os._exit(0)
        key = next(l.split(b":", 1)[1].strip() for l in head.split(b"\r\n") if l.lower().startswith(b"sec-websocket-key:"))
        acc = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
        self.c.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + b"\r\n\r\n")
        while True:
            m = self.recv()
            if m is None:
                os._exit(0)
            self.handle(json.loads(m))

    def exact(self, n):
        b = b""
        while len(b) < n:
            x = self.c.recv(n - len(b))
            if not x:
                os._exit(0)
            b += x
        return b

    def recv(self):
        data = b""
        while True:
            h = self.exact(2)
            op, fin, n = h[0] & 15, h[0] & 128, h[1] & 127
            n = struct.unpack(">H", self.exact(2))[0] if n == 126 else struct.unpack(">Q", self.exact(8))[0] if n == 127 else n
            mask = self.exact(4) if h[1] & 128 else b"\0\0\0\0"
            p = bytes(c ^ mask[i & 3] for i, c in enumerate(self.exact(n)))
            if op == 8:
                return None
            if op in (0, 1, 2):
                data += p
                if fin:
                    return data.decode()

    def send(self, o):
        p = json.dumps(o).encode()
        n = len(p)
        h = bytes([129]) + (bytes([n]) if n < 126 else b"\x7e" + struct.pack(">H", n) if n < 65536 else b"\x7f" + struct.pack(">Q", n))
        with self.wlock:
            try:
                self.c.sendall(h + p)
            except OSError:
                os._exit(0)

    def info(self, t):
        return {"targetId": t, "type": "page", "title": "", "url": self.tabs[t]["url"], "attached": False,
                "canAccessOpener": False, "browserContextId": "B"}

    def new(self):
        t = "T%d" % self.n
        self.n += 1
        self.tabs[t] = {"url": "about:blank", "content": b"BLANK " + t.encode()}
        return t

    def created(self, t):
        self.send({"method": "Target.targetCreated", "params": {"targetInfo": self.info(t)}})

    def fail(self, d, i, reply):
        """Carries out the failure the driver asked for; says whether it did."""
        f = d.get("fail")
        if not f:
            return False
        if f == "error":
            reply({"id": i, "error": {"code": -32000, "message": "injected"}})
        elif f == "die":
            os._exit(1)
        elif f == "close":
            with self.wlock:
                self.c.sendall(bytes([136, 2]) + struct.pack(">H", 1000))
            time.sleep(0.2)
            os._exit(0)
        return True

    def handle(self, m):
        i, meth, p = m["id"], m["method"], m.get("params") or {}
        ok = lambda r: self.send({"id": i, "result": r})
        if meth == "Target.setDiscoverTargets":
            if self.fail(ctl.ask("discover"), i, self.send):
                return
            for _ in range(self.cfg.get("before", 1)):
                self.created(self.new())
            ok({})
        elif meth == "Target.createTarget":
            d = ctl.ask("tab")
            if self.fail(d, i, self.send):
                return
            t = self.new()
            self.tabs[t]["url"] = p.get("url", "about:blank")
            if self.tabs[t]["url"] != "about:blank":
                self.tabs[t]["content"] = load(self.tabs[t]["url"])[1]
            self.created(t)
            for _ in range(self.cfg.get("after", 0)):
                self.created(self.new())
            ok({"targetId": t})
        elif meth == "Target.attachToTarget":
            s = "S" + p["targetId"]
            self.sessions[s] = p["targetId"]
            ok({"sessionId": s})
        elif meth == "Target.sendMessageToTarget":
            ok({})
            self.target(p["sessionId"], json.loads(p["message"]))
        elif meth == "Target.closeTarget":
            self.tabs.pop(p["targetId"], None)
            ok({"success": True})
            self.send({"method": "Target.targetDestroyed", "params": {"targetId": p["targetId"]}})
        elif meth == "Browser.close":
            ok({})
            ctl.ask("close")
            os._exit(0)
        elif meth == "Browser.getVersion":
            ok({"protocolVersion": "1.3", "product": "Chrome/1", "revision": "1", "userAgent": "x", "jsVersion": "1"})
        elif meth == "Target.getTargets":
            ok({"targetInfos": [self.info(t) for t in self.tabs]})
        else:
            ok({})

    def target(self, s, m):
        i, meth, p, t = m["id"], m["method"], m.get("params") or {}, self.sessions[s]
        inner = lambda o: self.send({"method": "Target.receivedMessageFromTarget",
                                     "params": {"sessionId": s, "targetId": t, "message": json.dumps(o)}})
        ev = lambda name: inner({"method": "Page.lifecycleEvent",
                                 "params": {"frameId": t, "loaderId": "L", "name": name, "timestamp": 1.0}})
        if t not in self.tabs:
            # a target that is gone answers nothing but an error
            inner({"id": i, "error": {"code": -32001, "message": "Session with given id not found."}})
        elif meth == "Page.navigate":
            d = ctl.ask("navigate", url=p["url"])
            if d.get("fail") == "nav":
                inner({"id": i, "result": {"frameId": t, "loaderId": "L", "errorText": "net::ERR_FILE_NOT_FOUND"}})
                return
            if self.fail(d, i, inner):
                return
            self.tabs[t]["url"] = p["url"]
            self.tabs[t]["content"] = b"LOADING"
            inner({"id": i, "result": {"frameId": t, "loaderId": "L"}})

            def loading():
                time.sleep(0.12)
                ev("init")
                d = ctl.ask("load", url=p["url"])
                if d.get("fail") == "die":
                    os._exit(1)
                if d.get("fail") == "close":
                    self.fail(d, i, inner)
                    return
                path, content = load(p["url"])
                self.tabs[t]["content"] = content
                if d.get("fail") == "destroy":
                    self.tabs.pop(t)
                    self.send({"method": "Target.targetDestroyed", "params": {"targetId": t}})
                for _ in range(30):
                    ev("networkAlmostIdle")
                    time.sleep(0.1)
            threading.Thread(target=loading, daemon=True).start()
        elif meth == "Page.printToPDF":
            tab = self.tabs.get(t, {"content": b"GONE"})
            nonce = "%s-%d-%d" % (t, os.getpid(), time.time_ns())
            data = pdf(tab["content"], nonce)
            d = ctl.ask("print", tab=t, content=base64.b64encode(tab["content"]).decode(), pdf=base64.b64encode(data).decode())
            if d.get("fail") == "garbage":
                inner({"id": i, "result": {"data": "***not base64***"}})
                return
            if self.fail(d, i, inner):
                return
            inner({"id": i, "result": {"data": base64.b64encode(data).decode()}})
        else:
            inner({"id": i, "result": {}})


Chrome().serve()
