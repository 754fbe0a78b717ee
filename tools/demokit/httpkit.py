"""A resolver to be programmed and a client for the HTTP server, all over the loopback network."""
import os, socket, struct, subprocess, sys, threading, time

def name(s): return b''.join(bytes([len(l)]) + l.encode() for l in s.split('.') if l) + b'\0'
def rr(n, ty, data, ttl=300): return name(n) + struct.pack('>HHIH', ty, 1, ttl, len(data)) + data
def txt(n, s, ttl=300): return rr(n, 16, bytes([len(s)]) + s.encode(), ttl)
def a(n, last, ttl=300): return rr(n, 1, bytes([10, 0, 0, last]), ttl)
def question(q):
    p, s = 12, ''
    while q[p]: s += q[p + 1:p + 1 + q[p]].decode() + '.'; p += 1 + q[p]
    return s or '.', struct.unpack('>H', q[p + 1:p + 3])[0]
def response(n, ty, answers, flags=0x81a0): return struct.pack('>HHHHHH', 0, flags, 1, len(answers), 0, 0) + name(n) + struct.pack('>HH', ty, 1) + b''.join(answers)

class Resolver:
    """Calls answer(name, type) for each query, for a list of answers or None to say nothing."""
    def __init__(self, answer):
        self.answer, self.queries, self.closed = answer, [], 0
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.s.bind(('127.0.0.1', 0)); self.s.listen(200)
        self.addr = '127.0.0.1:%d' % self.s.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()
    def run(self):
        while True:
            c, _ = self.s.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        f = c.makefile('rb')
        try:
            while True:
                l = f.read(2)
                if len(l) < 2: break
                q = f.read(struct.unpack('>H', l)[0])
                n, ty = question(q)
                self.queries.append((n, ty))
                ans = self.answer(n, ty)
                if ans is None: continue
                m = ans if isinstance(ans, bytes) else response(n, ty, ans)
                c.sendall(struct.pack('>H', len(m)) + m)
        except OSError: pass
        self.closed += 1
        c.close()

class Server:
    def __init__(self, binary, resolver):
        s = socket.socket(); s.bind(('127.0.0.1', 0)); self.port = s.getsockname()[1]; s.close()
        self.p = subprocess.Popen([binary], env=dict(os.environ, RESOLVER=resolver, BIND='127.0.0.1:%d' % self.port), stderr=subprocess.DEVNULL)
        for _ in range(200):
            try: self.connect().close(); break
            except OSError: time.sleep(0.05)
        time.sleep(0.2)
    def connect(self): return socket.create_connection(('127.0.0.1', self.port), timeout=10)
    def get(self, path, parts=None, timeout=10):
        """Status, headers and body of the answer to a request, which is possibly sent in parts."""
        c = self.connect(); c.settimeout(timeout)
        for i, p in enumerate(parts or [b'GET ' + path.encode() + b' HTTP/1.1\r\nHost: x\r\n\r\n']):
            if i: time.sleep(0.2)
            c.sendall(p)
        return self.finish(c)
    def finish(self, c):
        d = b''
        try:
            while True:
                b = c.recv(65536)
                if not b: break
                d += b
        except socket.timeout: return None, {}, b''
        except ConnectionResetError: pass
        c.close()
        h, _, body = d.partition(b'\r\n\r\n')
        lines = h.decode().split('\r\n')
        hs = {k.lower(): v.strip() for k, _, v in (l.partition(':') for l in lines[1:])}
        return (int(lines[0].split(' ')[1]) if lines[0] else 0), hs, body
    def cpu(self):
        t = open('/proc/%d/stat' % self.p.pid).read().rsplit(')', 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf('SC_CLK_TCK')
    def fds(self): return len(os.listdir('/proc/%d/fd' % self.p.pid))

def check(c, what):
    if not c: print(what); sys.stdout.flush(); end(1)
SERVERS = []
def end(rc):
    for s in SERVERS: s.p.kill()
    os._exit(rc)
def serve(answer):
    r = Resolver(answer); s = Server(sys.argv[1], r.addr); SERVERS.append(s)
    return r, s
