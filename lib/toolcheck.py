"""P05, P06: fstrm_replay with scripted receivers and fstrm_dump on intact and damaged files, judged by ToolRules."""
import multiprocessing
from progdrv import *

BIG = 1000000000


# ---------------------------------------------------------------- files
class Gen:
    def __init__(self, rng, ct=None):
        self.rng = rng
        self.ct = ct if ct is not None else bytes(rng.randrange(33, 127) for _ in range(rng.choice([1, 2, 5, 20]))).replace(b'-', b'_')

    def other(self):
        r, c = self.rng, self.ct
        while True:
            o = r.choice([c + b'x', c[:-1], c[:-1] + bytes([c[-1] ^ 1]) if c else b'z', c.swapcase(), b'', c + b'\0', b'x' + c, bytes(r.randrange(256) for _ in range(3)), b'q' * 256])
            if o != c:
                return o

    def frame(self, n=None):
        r = self.rng
        n = n or r.choice([1, 1, 2, 3, 4, 5, 8, 12, 30])
        k = r.randrange(7)
        if k == 6:     # what other parts of a stream look like
            return (r.choice([w32(r.randrange(6)), ctl(3), ctl(5), ctl(4, [self.ct[:20]]), ctl(2, [self.ct[:20]]), w32(n), bytes(1), b'\xff']) * n)[:n]
        if k == 0:
            return bytes(r.choice(b'"\\\x00\x7f\x1f\x20\x7e\x80\xff\n\r\t%x') for _ in range(n))
        if k == 1:
            return bytes(r.randrange(32, 127) for _ in range(n))
        if k == 2:
            return (ctl(3) + w32(1) + b'a' + bytes(n))[:n]
        return bytes(r.randrange(256) for _ in range(n))

    def data(self, n=None):
        f = self.frame(n)
        return w32(len(f)) + f

    def piece(self, x):
        r = self.rng
        if x == 'S':
            return ctl(2, [self.ct])
        if x == 'S0':
            return ctl(2)
        if x == 'Sx':
            return ctl(2, [self.other()])
        if x == 'E':
            return ctl(3)
        if x == 'd':
            return self.data()
        if x == 'D':
            return self.data(r.choice([1, 4, 8, 40, 100]))
        if x == 'R':
            return ctl(4, r.choice([[], [self.ct], [self.ct, self.other()]]))
        if x == 'A':
            return ctl(1, r.choice([[], [self.ct]]))
        if x == 'F':
            return ctl(5)
        if x == 'B':
            ct = w32(1) + w32(1) + b'x'
            p = r.choice([w32(2) + ct + ct, w32(3) + ct, w32(5) + ct, w32(2) + b'\0', w32(4) + w32(2) + ct[4:], w32(2) + w32(1) + w32(257) + b'x' * 257,
                          w32(4) + w32(1) + w32(0xffffffff) + b'x', w32(1) + w32(1) + w32(2) + b'x', w32(3) + b'\0' * 4])
            return w32(0) + w32(len(p)) + p
        if x == 'U':
            p = w32(r.choice([0, 6, 0xffffffff, 0x3000000, 0x10003, 256 + 3])) + r.choice([b'', b'', ctl(3), bytes(4), w32(1) + w32(1) + b'x', b'z' * r.randrange(1, 509), b'z' * 508])
            return w32(0) + w32(len(p)) + p
        if x == 'L':
            return w32(0) + w32(r.choice([0, 1, 2, 3, 513, 1000, 0xffffffff, 0x7fffffff, 0x1000004, 0xfffffffc])) + bytes(r.randrange(4))
        if x == 'c':
            d = r.choice([self.data(r.choice([2, 5, 40])), w32(r.choice([1000000, 1 << 24, 0xffffffff, 0x80000000, 0xfffffffb])) + b'abc'])
            return d[:r.randrange(1, len(d))]
        if x == 'C':
            d = r.choice([ctl(3), ctl(4, [b'abc']), ctl(2, [self.ct])])
            return d[:r.randrange(4, len(d))]
        return bytes(r.randrange(1, 4))      # 'z'

    def good(self, frames=None, start='S'):
        return self.piece(start) + b''.join(self.data() for _ in range(self.rng.choice([0, 1, 2, 3, 5]) if frames is None else frames)) + ctl(3)

    def file(self):
        """Some file, more or less well-formed."""
        r = self.rng
        k = r.random()
        if k < .35:
            return self.good()
        if k < .42:
            return self.good(None, r.choice(['S0', 'Sx']))
        if k < .75:
            t = [r.choice(['S', 'S', 'S', 'S0', 'Sx', r.choice('ERABLdF')])] + [r.choice('ddddDDRASBLFEUU' if i else 'ddD') for i in range(r.randrange(6))] + [r.choice(['E', 'E', 'c', 'C', 'z', 'd'])]
            return b''.join(self.piece(x) for x in t)
        if k < .97:
            return self.damage(self.good(r.choice([1, 2, 3])))
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 8, 20])))

    def damage(self, b):
        r = self.rng
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2])):
            i = r.randrange(len(b) or 1)
            k = r.randrange(5)
            if k == 0:
                del b[i:]
            elif k == 1 and b:
                b[i] = r.choice([0, 1, 255, b[i] ^ 1, (b[i] + 1) & 255, r.randrange(256)])
            elif k == 2:
                b.insert(i, r.choice([0, 1, 255, r.randrange(256)]))
            elif k == 3 and b:
                del b[i]
            else:
                b += r.choice([b'\0', self.data(), ctl(3), bytes(4)])
        return bytes(b)


class Blocks:
    """Long contents of data frames, which the traces only number."""
    def __init__(self):
        self.of, self.list = {}, []

    def add(self, f):
        if f not in self.of:
            self.list.append(f)
            self.of[f] = len(self.list)
        return f

    def cells(self, b):
        if not self.list:
            return list(b)
        out, i = [], 0
        while i < len(b):
            n = int.from_bytes(b[i:i + 4], 'big') if len(b) - i >= 4 else 0
            if n == 0:      # control, or the end
                m = 8 + int.from_bytes(b[i + 4:i + 8], 'big') if len(b) - i >= 8 else len(b)
                out += list(b[i:i + m])
                i += m
            else:
                f = b[i + 4:i + 4 + n]
                out += list(b[i:i + 4])
                if f in self.of:
                    out.append(-self.of[f])
                elif i + 4 + n > len(b) and any(len(x) == n and x.startswith(f) for x in self.list):
                    break       # the beginning of a block, at the end
                elif len(f) < 1000:
                    out += list(f)
                else:
                    out += list(f[:50]) + [0, 0, 0]      # matches nothing
                i += 4 + n
        return out

    @property
    def sizes(self):
        return [len(x) for x in self.list]


def blocks(files):
    """long frames of well-formed parts"""
    k = Blocks()
    for b in files:
        i = 0
        while len(b) >= 1000 and i < len(b) - 4:
            n = int.from_bytes(b[i:i + 4], 'big')
            if n == 0:
                i += 8 + int.from_bytes(b[i + 4:i + 8], 'big')
            else:
                if n >= 600:
                    k.add(b[i + 4:i + 4 + n])
                i += 4 + n
    return k


# ---------------------------------------------------------------- fstrm_dump
def quote(f):
    return b' "' + b''.join(b'\\"' if c == 34 else bytes([c]) if 32 <= c < 127 else b'\\x%02x' % c for c in f) + b'"'


def run_dump(exe, d, s):
    shutil.rmtree(d, True)
    os.makedirs(d)
    kind = s.get('kind', 'file')
    path = d + '/in'
    if kind == 'absent':
        path = d + '/none/in'
    elif kind == 'dir':
        os.mkdir(path)
    else:
        with open(path, 'wb') as f:
            f.write(s['in'])
    args, stdin = [exe, path], subprocess.DEVNULL
    if kind == 'stdin':
        args[1], stdin = '-', open(path, 'rb')
    copy = None
    if s.get('copy'):
        copy = d + '/none/copy' if s.get('bad') else '/dev/full' if s.get('full') else d + '/copy'
        if s.get('old'):
            with open(copy, 'wb') as f:
                f.write(b'old content' * 50)
        args.append(copy)
    e = env(FSTRMV_FSIZE=s['lim']) if s.get('lim') is not None else env()
    try:
        p = subprocess.run(args, stdin=stdin, capture_output=True, env=e, timeout=30)
    except subprocess.TimeoutExpired:
        return None, 'hangs'
    data = s['in'] if kind in ('file', 'stdin') else b''
    k = blocks([data])
    lines = {quote(x): [32, 34, -n, 34] for x, n in k.of.items()}
    out = [lines.get(l) or list(l[:5000]) for l in p.stdout.split(b'\n')]
    if out[-1] == []:
        out.pop()
    lens = [min(int(x), BIG) for x in re.findall(rb'(?m)^Data frame \((-?\d+)\) bytes', p.stderr)]
    cop = b''
    if copy and not s.get('full') and os.path.exists(copy):
        with open(copy, 'rb') as f:
            cop = f.read()
        if s.get('old') and cop == b'old content' * 50:      # untouched
            cop = b''
    shutil.rmtree(d, True)
    crash = None
    if p.returncode < 0 or p.returncode in (97, 99):
        crash = 'exit status %d: %s' % (p.returncode, p.stderr.decode('latin1')[-3000:])
    return [dict(e='dump', **{'in': k.cells(data)}, big=k.sizes, copy=bool(copy), lim=0 if s.get('full') else BIG if s.get('lim') is None else s['lim'], bad=bool(s.get('bad')),
                 out=out, lens=lens, rc=p.returncode, cop=k.cells(cop))], crash


def dump_cases(ctx, rng):
    q = ctx.quick
    out = []
    # the specification's pieces
    r = tlc(ctx, 'Tools', dcfg('Emit', Gen='TRUE', MaxLen=3 if q else 4), heap='3g')
    scripts = sorted({m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)})
    if not scripts:
        raise CheckError('the specification generated no scenarios')
    if q:
        scripts = [x for x in scripts if '"c' not in x or rng.random() < .5]
        scripts = rng.sample(scripts, min(len(scripts), 700))
    elif len(scripts) > 30000:
        scripts = rng.sample(scripts, 30000)
    ctx.extra['spec_generated_scenarios'] = len(scripts)
    for x in scripts:
        x = json.loads(x.replace('\\"', '"'))
        g = Gen(rng)
        fs = x['fs'] if rng.random() < .3 or x['fs'][0][0] == 'S' else [rng.choice(['S', 'S0', 'Sx'])] + x['fs']
        out.append(dict({'in': b''.join(g.piece(y) for y in fs)}, copy=x['copy'], bad=x['bad']))
    for rep in range(1 if q else 10):
        g = Gen(rng, None if rep else b'ab')
        b = g.piece(rng.choice(['S', 'S', 'S0'])) + g.data(rng.choice([1, 3])) + g.data(2) + g.data(5) + ctl(3)
        for cut in range(len(b) + 1):
            out.append({'in': b[:cut], 'copy': rng.random() < .5, 'kind': rng.choice(['file', 'file', 'stdin'])})
        for i in range(len(b)):
            for v in {0, 1, 255, b[i] ^ 1, (b[i] + 1) & 255, (b[i] - 1) & 255, rng.randrange(256)} if not q else {b[i] ^ 1, rng.choice([0, 1, 255, (b[i] + 1) & 255, rng.randrange(256)])}:
                out.append({'in': b[:i] + bytes([v]) + b[i + 1:], 'copy': rng.random() < .5})
            out.append({'in': b[:i] + b[i + 1:], 'copy': rng.random() < .5})
            out.append({'in': b[:i] + bytes([rng.randrange(256)]) + b[i:], 'copy': rng.random() < .5})
        # a full copy
        for lim in range(len(b) + 2):
            out.append({'in': b if rng.random() < .8 else b + b'x', 'copy': True, 'lim': lim})
        for n in (3000, 4096, 5000, 9000):       # beyond the stream's buffer
            f = g.piece('S') + g.data(n) + g.data(n) + g.data(4) + ctl(3)
            for lim in (0, 100, 4095, 4096, n, 2 * n, len(f) - 13, len(f) - 12, len(f) - 1, len(f)):
                out.append({'in': f, 'copy': True, 'lim': lim})
            out.append({'in': f, 'copy': True, 'full': 1})
        for c in range(256):       # every byte's quoting
            if c % 16 == 0:
                out.append({'in': g.piece('S') + b''.join(w32(3) + bytes([x, rng.randrange(256), x]) for x in range(c, c + 16)) + ctl(3)})
        for n in (600, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 262144, 1048575, 1048576, 1048577):
            out.append({'in': g.good(1, 'S')[:-12] + w32(n) + bytes(n) + g.data(3) + ctl(3), 'copy': True})
            out.append({'in': g.good(1, 'S')[:-12] + g.data(n) + g.data(3) + (ctl(3) if rng.random() < .8 else b''), 'copy': True})
        for n in (1, 200, 255, 256):
            out.append({'in': ctl(2, [bytes(rng.randrange(256) for _ in range(n))]) + g.data() + ctl(3), 'copy': True})
        out.append({'in': ctl(2, [b'']) + g.data() + ctl(3), 'copy': True})
        for kind in ('absent', 'dir'):
            for c in (True, False):
                out.append({'in': b'', 'kind': kind, 'copy': c})
        out.append({'in': g.piece('S') + b''.join(g.data() for _ in range(300)) + ctl(3), 'copy': True})
    for _ in range(700 if q else 30000):
        g = Gen(rng)
        s = {'in': g.file(), 'copy': rng.random() < .6, 'kind': rng.choice(['file', 'file', 'file', 'stdin'])}
        if s['copy'] and rng.random() < .15:
            s['lim'] = rng.randrange(len(s['in']) + 5)
        elif s['copy'] and rng.random() < .05:
            s[rng.choice(['bad', 'full'])] = 1
        elif s['copy'] and rng.random() < .2:
            s['old'] = 1
        out.append(s)
    return out


# ---------------------------------------------------------------- fstrm_replay
def reply(rng, g, name):
    """what the receiver answers to READY, and to STOP"""
    acc, fin = ctl(1, [g.ct]), ctl(5)
    if name == 'good':
        acc = rng.choice([acc, acc, ctl(1, [g.other(), g.ct]), ctl(1, [g.ct, g.other()])])
    elif name == 'none':
        acc = ctl(1)
    elif name == 'accno':
        acc = ctl(1, [g.other() for _ in range(rng.choice([1, 1, 2]))])
    elif name == 'accbad':
        acc = rng.choice([g.piece('B'), ctl(1, [g.ct])[:-1] + b'!', w32(0) + w32(600), w32(0) + w32(3) + b'abc', w32(0) + w32(12) + w32(1) + w32(1) + w32(9), w32(0) + w32(4) + w32(9), w32(0) + w32(4) + w32(0x01000000), w32(5) + b'hello', b'\xff' * 8,
                          w32(0) + w32(13 + len(g.ct)) + ctl(1, [g.ct])[8:] + b'x', w32(1) + w32(12 + len(g.ct)) + ctl(1, [g.ct])[8:]])
        if acc == ctl(1, [g.ct]):
            acc = b'\xff' * 8
        elif len(acc) == len(ctl(1, [g.ct])) and acc[-1:] == b'!':
            acc = ctl(1, [g.ct + b'!'])
    elif name == 'finish':
        acc = rng.choice([ctl(5), ctl(2, [g.ct]), ctl(3), ctl(4, [g.ct])])
    elif name == 'silent':
        acc = rng.choice([b'', ctl(1, [g.ct])[:rng.randrange(1, 11)]])
    elif name == 'nofin':
        fin = rng.choice([b'', ctl(5)[:rng.randrange(12)]])
    elif name == 'badfin':
        fin = rng.choice([ctl(3), ctl(1), ctl(1, [g.ct]), ctl(2), ctl(4), g.piece('B'), w32(1) + b'x' + bytes(8), b'\xff' * 12, w32(0) + w32(4) + w32(6), ctl(5, [g.ct])])
    return acc, fin


def receive(c, rx, limit, until):
    """read until a frame completes (until: 'frame' or 'stop'), or limit bytes, or EOF; returns (rx, ended)"""
    pos = 0
    while True:
        while True:       # frames
            b = rx[pos:pos + 12]
            if len(b) < 8:
                break
            n = int.from_bytes(b[:4], 'big')
            size = 4 + n if n else 8 + int.from_bytes(b[4:8], 'big')
            if len(rx) - pos < size:
                break
            pos += size
            if until == 'frame' or (n == 0 and b[8:12] == w32(3)):
                return rx, 'frame'
        if len(rx) >= limit:
            return rx, 'limit'
        d = c.recv(min(65536, limit - len(rx)))
        if not d:
            return rx, 'eof'
        rx += d


def run_replay(exe, d, s):
    shutil.rmtree(d, True)
    os.makedirs(d)
    name = s['recv']
    args = [exe, s.get('topt', '-t'), s['ct']]
    ls = None
    if s.get('tcp'):
        ls = socket.socket()
        ls.bind((loopback(), 0))
        ls.listen()
        args += ['-a', loopback(), '-p', str(ls.getsockname()[1])]
    else:
        if name != 'refuse' or s.get('stale'):
            ls = socket.socket(socket.AF_UNIX)
            ls.bind(d + '/s')
            if name != 'refuse':
                ls.listen()
        args += ['-u', d + '/s']
    stdin = subprocess.DEVNULL
    for i, f in enumerate(s['files']):
        p = d + '/f%d' % i
        if f is None:
            p = d + '/absent%d' % i
        elif f == 'dir':
            os.mkdir(p)
        elif i == s.get('stdin'):
            with open(p, 'wb') as h:
                h.write(f)
            stdin = open(p, 'rb')
            p = '-'
        else:
            with open(p, 'wb') as h:
                h.write(f)
        args += ['-r', p]
    rx, acc, allr, fin = b'', False, False, False
    p = subprocess.Popen(args, stdin=stdin, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env())
    crash = None
    try:
        if name != 'refuse':
            ls.settimeout(20)
            # a program that never connects: found when it has ended
            t0 = time.time()
            c = None
            while c is None and time.time() - t0 < 20:
                if select.select([ls], [], [], .05)[0]:
                    c = ls.accept()[0]
                elif p.poll() is not None and not select.select([ls], [], [], 0)[0]:
                    break
            if c is not None:
                c.settimeout(20)

                def send(b):
                    try:
                        if s.get('piece') and len(b):
                            for i in range(0, len(b), s['piece']):
                                c.sendall(b[i:i + s['piece']])
                                time.sleep(.0005)
                        else:
                            c.sendall(b)
                    except OSError:
                        pass
                def hang_up():
                    try:
                        c.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
                limit = s['close'] if name == 'close' else 1 << 60
                try:
                    rx, how = receive(c, b'', limit, 'frame')
                    if how == 'frame':
                        send(s['acc'])
                        acc = name in ('good', 'none', 'nofin', 'badfin', 'close')
                        if name == 'silent':
                            hang_up()
                        rx, how = receive(c, rx, limit, 'stop')
                        if how == 'frame' and name != 'close':
                            send(s['fin'])
                            hang_up()
                            fin = name in ('good', 'none')
                        allr = how != 'limit'
                        if how == 'frame' and name != 'close':     # nothing may follow
                            rx2, _ = receive(c, b'', 1 << 60, 'stop')
                            rx += rx2
                    else:
                        allr = how == 'eof'
                except socket.timeout:
                    crash = 'hangs'
                except ConnectionError:
                    allr = False
                c.close()
        _, err = p.communicate(timeout=30)
    except subprocess.TimeoutExpired:
        crash = 'hangs'
    if p.poll() is None:
        p.kill()
        p.wait()
    if ls:
        ls.close()
    rc = p.returncode
    if crash is None and (rc < 0 and rc != -signal.SIGPIPE or rc in (97, 99)):
        crash = 'exit status %d: %s' % (rc, err.decode('latin1')[-3000:])
    shutil.rmtree(d, True)
    k = blocks([f for f in s['files'] if isinstance(f, bytes)])
    return [dict(e='replay', ct=list(s['ct']), files=[dict(open=isinstance(f, bytes), **{'in': k.cells(f) if isinstance(f, bytes) else []}) for f in s['files']], big=k.sizes,
                 recv=dict(acc=acc, all=allr, fin=fin, name=name), rx=k.cells(rx), rc=rc)], crash


LIB = dict(good='S d D E', one='S d E', plain='S0 d E', empty='S E', other='Sx d E', cut='S d c', nostop='S d', badctl='S d B d E', odd='S d R d E', unk='S d U d E', more='S d E d', ready='R d E', junk='d', nothing='')


def replay_case(rng, files, recv, g):
    s = dict(ct=g.ct, files=files, recv='close' if recv[:5] == 'close' else recv)
    s['acc'], s['fin'] = reply(rng, g, s['recv'])
    if rng.random() < .15 and recv != 'refuse':
        s['tcp'] = 1
    if recv == 'refuse':
        s['stale'] = rng.random() < .5
    if rng.random() < .15:
        s['piece'] = rng.choice([1, 3, 7])
    if rng.random() < .05 and any(isinstance(f, bytes) for f in files):
        s['stdin'] = rng.choice([i for i, f in enumerate(files) if isinstance(f, bytes)])
    if rng.random() < .1:
        s['topt'] = '--type'
    return s


def replay_cases(ctx, rng):
    q = ctx.quick
    out = []
    r = tlc(ctx, 'Tools', dcfg('Emit', Which='"replay"', NFiles=2 if q else 3, Gen='TRUE'), heap='4g')
    scripts = sorted({m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)})
    if not scripts:
        raise CheckError('the specification generated no scenarios')
    scripts = rng.sample(scripts, min(len(scripts), 800 if q else 15000))
    ctx.extra['spec_generated_scenarios'] = len(scripts)
    for x in scripts:
        x = json.loads(x.replace('\\"', '"'))
        g = Gen(rng)
        files = [rng.choice([None, None, 'dir']) if f == 'absent' else b''.join(map(g.piece, LIB[f].split())) for f in x['fs']]
        if not files:
            files = [None]
        s = replay_case(rng, files, x['recv'], g)
        if s['recv'] == 'close':
            s['close'] = dict(close0=0, close4=rng.randrange(1, len(ctl(4, [g.ct]))), close9=len(ctl(4, [g.ct])) + rng.randrange(60))[x['recv']]
        out.append(s)
    for rep in range(1 if q else 12):
        g = Gen(rng, b'ab' if not rep else None)
        b = g.good(3)
        for cut in range(len(b) + 1):       # cut anywhere
            out.append(replay_case(rng, [b[:cut], g.good(1)] if cut % 2 else [g.good(1), b[:cut]], 'good', g))
        for i in range(len(b)):
            for v in {b[i] ^ 1, rng.choice([0, 1, 255, rng.randrange(256)])}:
                out.append(replay_case(rng, [b[:i] + bytes([v]) + b[i + 1:], g.good(1)], 'good', g))
        n = len(ctl(4, [g.ct])) + len(b)
        for close in range(n + 2):
            s = replay_case(rng, [b], 'close', g)
            s['close'] = close
            out.append(s)
        for n in (1024, 4096, 65536, 262144, 1048575, 1048576, 1048577):
            out.append(replay_case(rng, [g.good(1)[:-12] + w32(n) + bytes(n) + g.data(2) + ctl(3), g.good(2)], 'good', g))
            out.append(replay_case(rng, [g.good(1)[:-12] + g.data(n) + g.data(2) + ctl(3), g.good(2)], 'good', g))
        # much data to a receiver that goes away
        f = g.piece('S') + b''.join(g.data(20) for _ in range(30)) + ctl(3)
        for close in (100, 300, 500):
            s = replay_case(rng, [f] * 3, 'close', g)
            s['close'] = close
            out.append(s)
        many = [g.good(rng.randrange(3)) for _ in range(40)]
        out.append(replay_case(rng, many, 'good', g))
    for _ in range(500 if q else 15000):
        g = Gen(rng)
        files = [g.file() if rng.random() < .95 else rng.choice([None, 'dir']) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if rng.random() < .1:
            files.append(rng.choice(files))
        name = rng.choice(['good'] * 6 + ['none', 'none', 'accno', 'accbad', 'finish', 'silent', 'nofin', 'badfin', 'close'])
        s = replay_case(rng, files, name, g)
        if name == 'close':
            s['close'] = rng.randrange(len(ctl(4, [g.ct])) + sum(len(f) for f in files if isinstance(f, bytes)) + 5)
        out.append(s)
    return out


# ---------------------------------------------------------------- the specification
def dcfg(what='NoBad', mut='none', **k):
    d = dict(dict(WordLen=1, MaxPayload=4, MaxCt=1, MaxFrame=3, Which='"dump"', Alphabet='{0, 1, 2, 3}', MaxLen=6, Lims='{%d}' % BIG, NFiles=1, Gen='FALSE'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS %s Mutation = "%s"\n' % (what, ' '.join('%s = %s' % x for x in d.items()), mut)


DUMP, LIMITED, REPLAY = dict(MaxLen=8), dict(MaxLen=7, Lims='{0, 3, 4, 5, 7, 8}'), dict(Which='"replay"', NFiles=2)
DUMP_MUT = dict(partial=DUMP, resync=DUMP, unkbad=DUMP, notype=DUMP, lost=DUMP, eofok=DUMP, nostop=DUMP, closeok=LIMITED)
REPLAY_MUT = 'unkbad anyaccept anytype giveup drop2 past unstopped nofinok sentok'.split()


def worker(a):
    fn, exe, d, part = a
    out = []
    for i, s in part:
        out.append((i,) + fn(exe, '%s/%d' % (d, i), s))
        if out[-1][2]:
            break
    return out


def public(s):
    def h(x):
        return x.hex()[:4000] if isinstance(x, bytes) else [h(y) for y in x] if isinstance(x, list) else x
    return {k: h(v) for k, v in s.items()}


def run(ctx, which, fn, cases):
    exe = build_programs(ctx, [which])[which]
    parts = [list(enumerate(cases))[k::NCPU * 4] for k in range(NCPU * 4)]
    with multiprocessing.Pool(NCPU) as pool:
        res = sorted((r for p in pool.map(worker, [(fn, exe, ctx.scratch, p) for p in parts], chunksize=1) for r in p), key=lambda r: r[0])
    for i, e, c in res:
        if c:
            again = fn(exe, ctx.scratch + '/again', cases[i])[1]
            if again:
                ctx.violate('fstrm_%s %s' % (which, 'hangs' if again == 'hangs' else 'crashes'), {'scenario.json': public(cases[i]), 'trace.json': e or [], 'what.txt': again})
                return None
            raise CheckError('fstrm_%s: %s (not repeated)' % (which, c))
    return [dict(id=i, ev=e) for i, e, _ in res]


def judge(ctx, traces, cases):
    ctx.sample(traces[0])
    bad = validate(ctx, 'ToolTrace', traces, 'CONSTANTS WordLen = 4 MaxPayload = 512 MaxCt = 256 MaxFrame = 1048576 None = 0\n')
    if bad:
        t, l, out = bad
        ctx.violate('rules broken: %s' % str(t['ev'][l - 1])[:1500], {'scenario.json': public(cases[t['id']]), 'trace.json': t, 'tlc.txt': out[-5000:]})


def dump(ctx):
    muts = sorted(DUMP_MUT) if not ctx.quick else ctx.rng.sample(sorted(DUMP_MUT), 3)
    check_design(ctx, 'Tools', dcfg(**DUMP), [(m, dcfg(mut=m, **DUMP_MUT[m])) for m in muts])
    check_design(ctx, 'Tools', dcfg(**LIMITED))
    if not ctx.quick:
        check_design(ctx, 'Tools', dcfg(Alphabet='{0, 1, 2, 3, 4}', MaxLen=8, Lims='{4, 7, %d}' % BIG), heap='12g')
        check_design(ctx, 'Tools', dcfg(MaxLen=9), heap='12g')
    cases = dump_cases(ctx, ctx.rng)
    ctx.log('%d runs' % len(cases))
    traces = run(ctx, 'dump', run_dump, cases)
    if traces is None:
        return
    ev = [e for t in traces for e in t['ev']]
    ctx.extra.update(runs=len(ev), frames_shown=sum(len(e['out']) for e in ev), succeeded=sum(e['rc'] == 0 for e in ev), copies=sum(e['copy'] for e in ev), full_copies=sum(e['lim'] < BIG for e in ev))
    judge(ctx, traces, cases)


def replay(ctx):
    muts = REPLAY_MUT if not ctx.quick else ctx.rng.sample(REPLAY_MUT, 4)
    check_design(ctx, 'Tools', dcfg(**REPLAY), [(m, dcfg(mut=m, **REPLAY)) for m in muts])
    check_design(ctx, 'Tools', dcfg(**dict(REPLAY, NFiles=3)))
    cases = replay_cases(ctx, ctx.rng)
    ctx.log('%d runs' % len(cases))
    traces = run(ctx, 'replay', run_replay, cases)
    if traces is None:
        return
    ev = [e for t in traces for e in t['ev']]
    ctx.extra.update(runs=len(ev), files=sum(len(e['files']) for e in ev), succeeded=sum(e['rc'] == 0 for e in ev), accepted=sum(e['recv']['acc'] for e in ev), confirmed=sum(e['recv']['fin'] for e in ev))
    judge(ctx, traces, cases)
