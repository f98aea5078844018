"""The real programs: fstrm_capture in lock step (harness/prog_shim.c), fstrm_replay, fstrm_dump."""
import errno, fcntl, select, signal, socket, struct, subprocess, threading
from common import *

LIBC_CFLAGS = ['-U_FORTIFY_SOURCE'] + ASAN


def build_programs(ctx, names):
    out = {}
    for n in names:
        shared = [f for f in sorted(glob.glob(REPO + '/src/*.c')) if not os.path.basename(f).startswith('fstrm_')]
        srcs = [REPO + '/src/fstrm_%s.c' % n] + shared + lib_sources() + [HARNESS + '/prog_shim.c']
        out[n] = build(ctx, n, srcs, LIBC_CFLAGS + ['-I' + REPO + '/fstrm'], ASAN + (['-levent'] if n == 'capture' else []),
                       per_file=lambda s: ['-fno-sanitize=all'] if s.endswith('shim.c') else [])
    return out


def w32(n):
    return struct.pack('>I', n)


def ctl(ty, cts=()):
    p = w32(ty) + b''.join(w32(1) + w32(len(c)) + c for c in cts)
    return w32(0) + w32(len(p)) + p


def env(**k):
    e = {x: v for x, v in os.environ.items() if x not in ('LD_PRELOAD',)}
    e.update(ASAN_ENV)
    e.update({a: str(b) for a, b in k.items()})
    return e


def loopback():
    """An address of this process's own, so that ports are not shared."""
    n = os.getpid()
    return '127.%d.%d.%d' % (1 + (n >> 16) % 250, (n >> 8) & 255, 1 + (n & 255) % 254)


class Hang(Exception):
    pass


class Prog:
    """fstrm_capture under the driver's control."""
    def __init__(self, exe, args, stdout=subprocess.DEVNULL, time=None, fsize=None, tz='UTC', cwd=None, limit=30):
        a, b = socket.socketpair()
        k = dict(FSTRMV_CTL=b.fileno(), FSTRMV_TIME=time if time is not None else 1000000, TZ=tz)
        if fsize is not None:
            k['FSTRMV_FSIZE'] = fsize
        self.ctl, self.limit, self.rc, self.err = a, limit, None, b''
        a.settimeout(limit)
        r, w = os.pipe()
        fcntl.fcntl(w, 1031, 1 << 20)
        os.set_blocking(r, False)
        self.errfd = r
        self.p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=stdout, stderr=w, pass_fds=[b.fileno()], env=env(**k), cwd=cwd)
        os.close(w)
        b.close()
        self.alive = self.idle()

    def drain(self):
        try:
            while True:
                d = os.read(self.errfd, 1 << 16)
                if not d:
                    return
                self.err = (self.err + d)[-20000:]
        except BlockingIOError:
            pass

    def idle(self):
        """Wait until it is idle (True) or gone (False)."""
        try:
            c = self.ctl.recv(1)
        except socket.timeout:
            self.kill()
            raise Hang()
        except ConnectionResetError:
            c = b''
        self.drain()
        if c:
            return True
        try:
            self.rc = self.p.wait(self.limit)
        except subprocess.TimeoutExpired:
            self.kill()
            raise Hang()
        self.drain()
        return False

    def cmd(self, s):
        self.ctl.sendall(s)
        self.alive = self.idle()
        return self.alive

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def done(self):
        self.kill()
        self.ctl.close()
        os.close(self.errfd)
