# Small RTMP/HTTP client and server runner for the demonstrations under seeded/ (copied beside each demo as lib.py).
import os, re, shutil, signal, socket, struct, subprocess, sys, tempfile, time

OBJS = os.path.abspath("_build/nginx/objs")


def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p


class Server:
    """nginx with the modules of the tree in the current directory; %(port)d and friends are replaced in conf."""
    def __init__(self, rtmp_app="", http="", main="", rtmp_srv="", workers=0, rtmp_main="", events="", zone="buckets=64 streams=256", **kw):
        self.dir = tempfile.mkdtemp(prefix="demo")
        os.chmod(self.dir, 0o755)
        self.port, self.hport = port(), port()
        self.v = dict(port=self.port, hport=self.hport, dir=self.dir, **kw)
        for d in ("logs", "out"): os.mkdir(os.path.join(self.dir, d)); os.chmod(os.path.join(self.dir, d), 0o777)
        name = open(OBJS + "/pingos.name").read().strip()
        c = f"load_module {OBJS}/{name}.so;\nload_module {OBJS}/ngx_http_ts_module.so;\n"
        c += "user root;\n" if os.getuid() == 0 else ""
        c += "daemon off;\n" + ("master_process off;\n" if not workers else f"worker_processes {workers};\n")
        c += f"pid {self.dir}/nginx.pid;\nlock_file {self.dir}/lock;\nerror_log {self.dir}/logs/error.log info;\nevents {{ worker_connections 512; {events} }}\n"
        c += f"stream_zone {zone};\n" + main
        c += "rtmp { " + rtmp_main + f" log_interval 1h; server {{ listen 127.0.0.1:{self.port}; serverid demo; {rtmp_srv}\n" + rtmp_app + "\n} }\n"
        c += f"http {{ access_log off; server {{ listen 127.0.0.1:{self.hport}; {http} }} }}\n"
        for k, x in self.v.items(): c = c.replace("%(" + k + ")", str(x))
        c = c.replace("log_interval 1h;", "")
        open(self.dir + "/nginx.conf", "w").write(c)

    def __enter__(self):
        self.p = subprocess.Popen(["/usr/sbin/nginx", "-e", self.dir + "/logs/error.log", "-p", self.dir + "/", "-c", self.dir + "/nginx.conf"], stdin=subprocess.DEVNULL, start_new_session=True)
        for _ in range(1000):
            try: socket.create_connection(("127.0.0.1", self.port), 1).close(); return self
            except OSError:
                if self.p.poll() is not None: print("nginx did not start:\n" + open(self.dir + "/logs/error.log").read()); sys.exit(2)
                time.sleep(0.05)
        print("nginx does not listen\n" + self.log()[-3000:])
        for f in ("status", "wchan", "net/tcp"):
            try: print(f + ":\n" + open(f"/proc/{self.p.pid}/{f}").read())
            except OSError as e: print(f, e)
        self.p.kill(); sys.exit(2)

    def alive(self): return self.p.poll() is None
    def log(self): return open(self.dir + "/logs/error.log", errors="replace").read()

    def __exit__(self, *a):
        if self.alive():
            self.p.terminate()
            try: self.p.wait(5)
            except subprocess.TimeoutExpired: pass
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        if not os.environ.get("DEMO_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)


def num(x): return b"\0" + struct.pack(">d", x)
def s_(x): x = x.encode() if isinstance(x, str) else x; return b"\2" + struct.pack(">H", len(x)) + x
def null(): return b"\5"
def boolean(x): return b"\1" + (b"\1" if x else b"\0")
def obj(d): return b"\3" + props(d) + b"\0\0\x09"
def ecma(d): return b"\x08" + struct.pack(">I", len(d)) + props(d) + b"\0\0\x09"
def props(d): return b"".join(struct.pack(">H", len(k)) + k.encode() + v for k, v in d.items())


def amf(b):
    out = []
    try:
        while b: v, b = amf1(b); out.append(v)
    except Exception: out.append("?")
    return out


def amf1(b):
    t, b = b[0], b[1:]
    if t == 0: return struct.unpack(">d", b[:8])[0], b[8:]
    if t == 1: return bool(b[0]), b[1:]
    if t == 2: n = struct.unpack(">H", b[:2])[0]; return b[2:2 + n].decode("latin1"), b[2 + n:]
    if t in (3, 8):
        if t == 8: b = b[4:]
        d = {}
        while True:
            n = struct.unpack(">H", b[:2])[0]; k = b[2:2 + n].decode("latin1"); b = b[2 + n:]
            if not n: return d, b[1:]
            d[k], b = amf1(b)
    if t in (5, 6): return None, b
    raise ValueError(t)


class Msg:
    def __init__(self, type, ts, sid, data, csid=0): self.type, self.ts, self.sid, self.data, self.csid = type, ts, sid, data, csid
    def __repr__(self): return f"<{self.type} ts={self.ts} sid={self.sid} {amf(self.data)[:1] if self.type in (18, 20) else self.data[:12]!r}+{len(self.data)}>"


class Client:
    def __init__(self, srv, app="live", rcvbuf=None, host="127.0.0.1"):
        self.app = app; self.srv = srv; self.buf = b""; self.inc = 128; self.outc = 128; self.cs = {}; self.msgs = []; self.eof = False; self.err = None
        self.s = socket.socket()
        if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.connect((host, srv.port)); self.s.settimeout(5)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def handshake(self):
        self.s.sendall(b"\3" + bytes(8) + bytes((i * 7) & 255 for i in range(1528)))
        r = self.exact(1 + 1536 + 1536)
        self.s.sendall(r[1:1537]); return self

    def exact(self, n):
        b = b""
        while len(b) < n:
            d = self.s.recv(n - len(b))
            if not d: raise EOFError
            b += d
        return b

    def chunks(self, type, data, sid=0, ts=0, csid=3, size=None):
        size = size or self.outc
        def basic(f): return bytes([f << 6 | csid]) if csid < 64 else bytes([f << 6, csid - 64]) if csid < 320 else bytes([f << 6 | 1, (csid - 64) & 255, (csid - 64) >> 8])
        ext = struct.pack(">I", ts) if ts >= 0xffffff else b""
        out = basic(0) + struct.pack(">I", min(ts, 0xffffff))[1:] + struct.pack(">I", len(data))[1:] + bytes([type]) + struct.pack("<I", sid) + ext + data[:size]
        for i in range(size, len(data), size): out += basic(3) + ext + data[i:i + size]
        return out

    def send(self, type, data, sid=1, ts=0, csid=6): self.s.sendall(self.chunks(type, data, sid, ts, csid))
    def raw(self, b): self.s.sendall(b)
    def cmd(self, name, *args, sid=0, tx=1, csid=3): self.send(20, s_(name) + num(tx) + b"".join(args), sid, 0, csid)
    def set_chunk(self, n): self.send(1, struct.pack(">I", n), 0, 0, 2); self.outc = n

    def pump(self, wait=0.3, until=None, limit=None):
        """reads for `wait` seconds without anything new, or until until(self) is true"""
        end = time.time() + wait; stop = time.time() + (limit or 10 * wait + 5)
        while not self.eof and time.time() < min(end, stop):
            if until and until(self): return self
            self.s.settimeout(0.05)
            try: d = self.s.recv(65536)
            except socket.timeout: continue
            except OSError: d = b""
            if not d: self.eof = True; break
            self.buf += d; self.parse(); end = time.time() + wait
        return self

    def parse(self):
        while True:
            b = self.buf
            if not b: return
            f, c = b[0] >> 6, b[0] & 63; i = 1
            if c == 0:
                if len(b) < 2: return
                c = b[1] + 64; i = 2
            elif c == 1:
                if len(b) < 3: return
                c = b[1] + b[2] * 256 + 64; i = 3
            st = self.cs.setdefault(c, dict(ts=0, d=0, len=0, type=0, sid=0, body=b"", ext=False))
            hl = (11, 7, 3, 0)[f]
            if len(b) < i + hl: return
            h = b[i:i + hl]; i += hl
            t = None
            if hl >= 3: t = int.from_bytes(h[:3], "big"); ext = t == 0xffffff
            else: ext = st["ext"]
            ln = int.from_bytes(h[3:6], "big") if hl >= 7 else st["len"]
            if ext:
                if len(b) < i + 4: return
                t = int.from_bytes(b[i:i + 4], "big"); i += 4
            n = min(self.inc, ln - len(st["body"]))
            if len(b) < i + n: return
            first = not st["body"]
            if hl >= 7: st["len"] = ln; st["type"] = h[6]
            if hl == 11: st["sid"] = int.from_bytes(h[7:11], "little")
            st["ext"] = ext
            if first:
                if hl == 11: st["ts"] = t; st["d"] = 0
                elif hl: st["d"] = t; st["ts"] += t
                else: st["ts"] += st["d"]
            st["body"] += b[i:i + n]; self.buf = b[i + n:]
            if len(st["body"]) >= st["len"]:
                m = Msg(st["type"], st["ts"] & 0xffffffff, st["sid"], st["body"], c); st["body"] = b""
                if m.type == 1: self.inc = int.from_bytes(m.data[:4], "big")
                self.msgs.append(m)

    def wait_code(self, code, t=5): self.pump(t, lambda c: c.has(code)); return self.has(code)
    def codes(self): return [v["code"] for m in self.msgs if m.type == 20 for v in amf(m.data) if isinstance(v, dict) and "code" in v]
    def has(self, code): return code in self.codes()

    def connect(self, app=None, url=None):
        app = app or self.app
        self.cmd("connect", obj({"app": s_(app), "flashVer": s_("demo"), "tcUrl": s_(url or f"rtmp://127.0.0.1:{self.srv.port}/{app}")}))
        return self.wait_code("NetConnection.Connect.Success")

    def create(self):
        self.cmd("createStream", null(), tx=2)
        self.pump(5, lambda c: any(m.type == 20 and amf(m.data)[:2] == ["_result", 2.0] for m in c.msgs)); return self

    def up(self, **k): self.handshake(); self.connect(**k); return self.create()
    def publish(self, name, wait=True):
        self.cmd("publish", null(), s_(name), s_("live"), sid=1, tx=3, csid=4)
        return self.wait_code("NetStream.Publish.Start", 3) if wait else None

    def play(self, name, wait=True):
        self.cmd("play", null(), s_(name), num(-2000), sid=1, tx=4, csid=4)
        return self.wait_code("NetStream.Play.Start", 3) if wait else None

    def av(self): return [m for m in self.msgs if m.type in (8, 9)]
    def close(self): self.s.close()


SPS = bytes.fromhex("6742c01e")
PPS = bytes.fromhex("68ce3c80")
def avc_header(sps=None): sps = sps or bytes.fromhex("6742c01ed9005005bb0110000003001000000303c0f1832480"); return b"\x17\0\0\0\0\x01" + sps[1:4] + b"\xff\xe1" + struct.pack(">H", len(sps)) + sps + b"\x01" + struct.pack(">H", len(PPS)) + PPS
def key(d=b"key"): return b"\x17\1\0\0\0" + struct.pack(">I", len(d) + 1) + b"\x65" + d
def inter(d=b"inter"): return b"\x27\1\0\0\0" + struct.pack(">I", len(d) + 1) + b"\x41" + d
def aac_header(): return b"\xaf\0\x12\x10"
def aac(d=b"aac"): return b"\xaf\1" + d
def meta(**k): return s_("@setDataFrame") + s_("onMetaData") + ecma({"width": num(640), "height": num(480), **k})
def http(srv, path, method="GET", body=b"", read=1.0, headers=""):
    s = socket.create_connection(("127.0.0.1", srv.hport), 5)
    s.sendall(f"{method} {path} HTTP/1.0\r\nHost: x\r\n{headers}{'Content-Length: %d' % len(body) + chr(13) + chr(10) if body else ''}\r\n".encode() + body)
    out = b""; s.settimeout(read)
    try:
        while True:
            d = s.recv(65536)
            if not d: break
            out += d
    except socket.timeout: pass
    s.close(); return out


def fail(msg): print("FAIL:", msg); sys.exit(1)
def check(c, msg):
    if not c: fail(msg)


def http_open(srv, path, headers=""):
    s = socket.create_connection(("127.0.0.1", srv.hport), 5); s.sendall(f"GET {path} HTTP/1.0\r\nHost: x\r\n{headers}\r\n".encode()); return s
