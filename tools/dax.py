"""A minimal client that speaks the server's socket protocol, for the demonstrations.
It starts the real tagserver of /repo/build in a scratch directory."""
import os, socket, struct, subprocess, sys, tempfile, time, shutil, atexit
BOOL, BYTE, SINT, CHAR, WORD, INT, UINT, DWORD, DINT, UDINT, REAL, LWORD, LINT, ULINT, TIME, LREAL = \
    0x10, 0x03, 0x13, 0x23, 0x04, 0x14, 0x24, 0x05, 0x15, 0x25, 0x35, 0x06, 0x16, 0x26, 0x36, 0x46
QUEUE, CUSTOM = 0x40000000, 0x80000000
REG, ADD, DEL, GET, LIST, READ, WRITE, MWRITE, EADD, EDEL, EGET, EOPT, CDTC, CDTG, MADD, MDEL, MGET, GADD, GDEL, GREAD, \
    GWRITE, GMWRITE, ATOMIC, OADD, ODEL, OGET, OSET = range(1, 28)
class Error(Exception): pass
class Server:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='daxdemo_')
        self.path = os.path.join(self.d, 'sock')
        s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
        self.p = subprocess.Popen(['/repo/build/src/server/tagserver', '-S', self.path, '-I', '127.0.0.1', '-P', str(port)],
                                  cwd=self.d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        atexit.register(self.stop)
        for i in range(100):
            if os.path.exists(self.path): break
            time.sleep(0.05)
        time.sleep(0.1)
    def alive(self): return self.p.poll() is None
    def stop(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
        shutil.rmtree(self.d, ignore_errors=True)
class Mod:
    def __init__(self, srv, name='demo'):
        self.events = []
        self.s = socket.socket(socket.AF_UNIX); self.s.settimeout(5)
        for i in range(40):
            try: self.s.connect(srv.path); break
            except OSError: time.sleep(0.05)
        self.call(REG, struct.pack('>II', 1000, 1) + name.encode() + b'\0')
    def _recv(self, n):
        b = b''
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x: raise Error('connection closed')
            b += x
        return b
    def recv(self):
        size, cmd = struct.unpack('>II', self._recv(8))
        return cmd, self._recv(size)
    def send(self, cmd, data=b''): self.s.sendall(struct.pack('>II', len(data) + 8, cmd) + data)
    def call(self, cmd, data=b''):
        self.send(cmd, data)
        while True:
            c, d = self.recv()
            if c & 0x3000000 == 0: self.events.append((c, d)); continue
            if c & 0xFFFF != cmd: raise Error('answer to another command %x' % c)
            if c & 0x2000000: raise Error(struct.unpack('<i', d[:4])[0])
            return d
    def err(self, *a):
        """the error code, or 0"""
        try: self.call(*a); return 0
        except Error as e:
            if isinstance(e.args[0], int): return e.args[0]
            raise
    def add(self, name, type, count, attr=0): return struct.unpack('<i', self.call(ADD, struct.pack('<III', type, count, attr) + name.encode() + b'\0'))[0]
    def read(self, idx, off, size): return self.call(READ, struct.pack('<iii', idx, off, size))
    def write(self, idx, off, data): return self.call(WRITE, struct.pack('<ii', idx, off) + data)
    def mwrite(self, idx, off, data, mask): return self.call(MWRITE, struct.pack('<ii', idx, off) + data + mask)
    def poll(self, t=0.3):
        self.s.settimeout(t)
        try:
            while True: self.events.append(self.recv())
        except socket.timeout: pass
        self.s.settimeout(5)
        e, self.events = self.events, []
        return e
def check(c, text):
    if not c: print('FAILED:', text); sys.exit(1)
