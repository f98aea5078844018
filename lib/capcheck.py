"""P01-P04: fstrm_capture in lock step with scripted clients, signals, time and full outputs, judged by CaptureRules."""
import calendar, multiprocessing
from progdrv import *

START, STOP = -2, -3
BIG = 1000000000
SIGNUM = dict(usr1=signal.SIGUSR1, hup=signal.SIGHUP, term=signal.SIGTERM)


# ---------------------------------------------------------------- tokens
class Gen:
    """Clients' byte streams for one scenario."""
    def __init__(self, rng, ct=None, buf=262144):
        self.rng, self.buf = rng, buf
        self.ct = ct if ct is not None else bytes(rng.randrange(33, 127) for _ in range(rng.choice([1, 3, 3, 11, 40, 11, 200, 255, 256]))).replace(b'-', b'_')
        self.seen, self.n = set(), {}

    def other(self):
        r, c = self.rng, self.ct
        while True:
            o = r.choice([c[:255] + b'x' if len(c) > 255 else c + b'x', c[:-1] + bytes([c[-1] ^ 1]), c[:-1], c.swapcase(), b'', (c + b'\0')[-256:], (b'x' + c)[:256], bytes(reversed(c)), bytes(r.randrange(256) for _ in range(3))])
            if o != c:
                return o

    def cts(self, how):
        r = self.rng
        if how == 'none':
            return []
        if how == 'ours':
            return [self.ct]
        if how == 'other':
            return [self.other()]
        l = [self.other() for _ in range(r.choice([1, 2]))]       # 'many'
        l.insert(r.randrange(len(l) + 1), self.ct)
        while sum(8 + len(c) for c in l) > 508:
            l.remove(next(c for c in l if c != self.ct))
        return l

    def control(self, k, how='none'):
        cts = self.cts(how)
        b = ctl(dict(accept=1, start=2, stop=3, ready=4, finish=5)[k], cts)
        return dict(k=k, cts=[int(c != self.ct) for c in cts], n=len(b), id=0, _b=b)

    def bad(self):
        r = self.rng
        ct = w32(1) + w32(len(self.ct)) + self.ct
        p = r.choice([w32(0), w32(6), w32(0xffffffff), w32(0x01000002), w32(0x0200), w32(2) + ct + ct, w32(3) + ct, w32(5) + ct, w32(4) + b'\0', w32(4) + ct[:-1],
                      w32(4) + w32(2) + ct[4:], w32(4) + w32(1) + w32(0xffffffff) + self.ct, w32(4) + w32(1) + w32(len(self.ct) + 1) + self.ct, w32(2) + b'\0' * 4, w32(3) + b'\0'])
        if len(p) > 512:
            return self.bad()
        b = w32(0) + w32(len(p)) + p
        return dict(k='bad', cts=[], n=len(b), id=0, _b=b)

    def badlen(self):
        b = w32(0) + w32(self.rng.choice([0, 1, 2, 3, 513, 514, 1024, 65536, 0x7fffffff, 0xffffffff, 0xfffffff8, 0x01000004])) + bytes(self.rng.randrange(4))
        return dict(k='len', cts=[], n=8, id=0, _b=b)

    def data(self, c, total):
        """A data frame of total bytes in the stream; huge ones are only announced."""
        r = self.rng
        i = self.n[c] = self.n.get(c, 0) + 1
        n = total - 4
        if n > 3000000:
            return dict(k='data', cts=[], n=min(total, BIG), id=c * 10000 + i, _b=w32(n), _pad=True)
        if r.random() < .15:     # what other parts of a stream look like
            p = (r.choice([w32(r.randrange(6)), ctl(3), ctl(5), ctl(4, [self.ct]), ctl(2, [self.ct]), w32(n), bytes(1), b'\xff']) * n)[:n]
            if p not in self.seen:
                self.seen.add(p)
                return dict(k='data', cts=[], n=4 + n, id=c * 10000 + i, _b=w32(n) + p)
        while True:
            p = bytes(r.randrange(256) for _ in range(n)) if n < 40 else r.randbytes(n) if r.random() < .8 else bytes(n - 8) + r.randbytes(8)
            if p not in self.seen:
                break
            if n == 1 and len([x for x in self.seen if len(x) == 1]) > 200:
                n = total = 5 + 4
        self.seen.add(p)
        return dict(k='data', cts=[], n=4 + len(p), id=c * 10000 + i, _b=w32(len(p)) + p)

    def size(self):
        r, b = self.rng, self.buf
        s = r.choice([5, 6, 7, 8, 9, 12, 20, r.randrange(5, 60), min(b, 40), min(b, r.randrange(5, 3000)), b, b - 1, b, b // 2] if b < 5000 else
                     [5, 6, 8, 12, 20, 40, r.randrange(5, 60), r.randrange(5, 3000), 4096, 16384, 16385, b if r.random() < .3 else 10])
        return max(5, min(s, b))

    def over(self):
        r, b = self.rng, self.buf
        return r.choice([b + 1, b + 2, b + 4, 2 * b, 2 * b + 1, b + r.randrange(1, b), 4 + 0xffffffff - r.randrange(5), 4 + 0xffffffff, 4 + 0x80000000, 4 + 0x7fffffff, 4 + 0xfffffffb]
                        if r.random() < .4 else [b + 1, b + 2, 2 * b, b + 1 + r.randrange(3 * b)])

    def session(self, c, frames=3, over=.0, stop=True):
        r = self.rng
        t = [self.control('ready', r.choice(['ours', 'ours', 'none', 'many'])), self.control('start', r.choice(['ours', 'ours', 'ours', 'none']))]
        for _ in range(frames):
            t.append(self.data(c, self.over() if r.random() < over else self.size()))
        if stop:
            t.append(self.control('stop'))
        return t

    def wrong(self, c):
        """Anything else."""
        r = self.rng
        k = r.randrange(9)
        if k == 0:
            return self.bad()
        if k == 1:
            return self.badlen()
        if k == 2:
            return self.data(c, self.size())
        if k == 3:
            return self.control('ready', r.choice(['ours', 'none', 'other', 'many']))
        if k == 4:
            return self.control('start', r.choice(['ours', 'none', 'other']))
        if k == 5:
            return self.control('stop')
        if k == 6:
            return self.control(r.choice(['accept', 'finish']), 'none')
        if k == 7:
            return self.control('accept', 'ours')
        return self.data(c, self.over())

    def spoiled(self, c, frames=3, over=.0):
        t = self.session(c, frames, over, self.rng.random() < .9)
        for _ in range(self.rng.choice([1, 1, 1, 2])):
            i = self.rng.randrange(len(t) + 1)
            k = self.rng.randrange(4)
            if k == 0 and i < len(t):
                del t[i]
            elif k == 1 and i < len(t):
                t[i] = self.wrong(c)
            elif k == 2 and len(t) > 1:
                j = self.rng.randrange(len(t) - 1)
                t[j], t[j + 1] = t[j + 1], t[j]
            else:
                t.insert(i, self.wrong(c))
        return t

    def fits(self, toks):
        return all(t['k'] in ('data', 'len') or t['n'] <= self.buf for t in toks)


def stream(toks):
    out = []
    for t in toks:
        out.append(t['_b'])
        if t.get('_pad'):
            out.append(bytes(5000))
            break
    return b''.join(out)


# ---------------------------------------------------------------- running a scenario
def parse(data, enc):
    us, by = [], {x: u for u, x in enc.items()}
    while data:
        n = int.from_bytes(data[:4], 'big')
        total = 4 + n if n else 8 + int.from_bytes(data[4:8], 'big') if len(data) >= 8 else 1 << 40
        if len(data) < total or len(data) < 4:
            return dict(us=us, tail=True, cand=[u for u, x in enc.items() if x.startswith(data)])
        u = by.get(data[:total], 0)
        us.append(u)
        if u == 0:
            break
        data = data[total:]
    return dict(us=us, tail=False, cand=[])


def run_case(exe, d, s):
    """Returns the trace (events), and what crashed (or None)."""
    shutil.rmtree(d, True)
    os.makedirs(d + '/o')
    g = s['cfg']
    ct = bytes.fromhex(g['ct'])
    pat, std = bool(g.get('pat')), bool(g.get('std'))
    full = g.get('full')
    path = g.get('path') or ('/dev/full' if full else '-' if std else 'o/' + (g['pat'] if pat else 'f'))
    args = ['-t', ct, '-w', path]
    if g.get('tcp'):
        ls = socket.socket()
        ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        ls.bind((loopback(), 0))
        port = ls.getsockname()[1]
        ls.close()
        args += ['-a', loopback(), '-p', str(port)]
    else:
        args += ['-u', 's']
    if g.get('buf'):
        args += ['-b', str(g['buf'])]
    if g.get('maxc'):
        args += ['-c', str(g['maxc'])]
    if g.get('split'):
        args += ['-s', str(g['split'])]
    if pat:
        args += ['--' + g['tm']]
    if g.get('dbg'):
        args += ['-' + 'd' * g['dbg']]
    off = g.get('off', 0)
    tz = 'UTC' if not off else 'XXX%s%d:%02d' % ('-' if off > 0 else '+', abs(off) // 3600, abs(off) // 60 % 60)
    lim = 0 if full else g['lim'] if g.get('lim') is not None else BIG
    clients = s['clients']
    enc = {START: ctl(2, [ct]), STOP: ctl(3)}
    for t in clients:
        for x in t:
            if x['k'] == 'data' and not x.get('_pad'):
                enc[x['id']] = x['_b']
    ev = [dict(e='cfg', buf=g.get('buf') or 262144, maxc=g.get('maxc') or 0, split=g.get('split') or 0, pat=pat, std=std or bool(full), lim=lim, bad=bool(g.get('bad')), now=g['now'], start=len(enc[START]))]
    ev_stdout = open(d + '/o/stdout', 'wb') if std else subprocess.DEVNULL
    streams = [stream(t) for t in clients]
    socks, num, order, sent, got, closed, reps = {}, {}, [], [0] * len(clients), [b''] * len(clients), [False] * len(clients), None
    kept, cur = 0, g['now']
    unread = {o[1] for o in s['ops'] if o[0] == 'fin' and len(o) > 2} if not g.get('tcp') else set()
    pr = None

    def epoch(name):
        e = epoch0(name.split('~')[0])
        # names of months and days
        return e if '~' not in g['pat'] or name == time.strftime(g['pat'], time.gmtime(e + (off if g['tm'] == 'localtime' else 0))) else -1

    def epoch0(name):
        m = re.match(g['_re'] if '_re' in g else r'(\d+)', name)
        p = time.strptime(name[1:], '%Y%m%d-%H%M%S') if not name[1:].isdigit() else None
        return calendar.timegm(p) - (off if g['tm'] == 'localtime' else 0) if p else int(name[1:])

    def names():
        fs = os.listdir(d + '/o')
        if pat:
            r = []
            for f in fs:
                try:
                    r.append((epoch(f), f))
                except ValueError:
                    r.append((-1, f))
            return sorted(r)
        if std:
            return [(0, 'stdout')]
        r = [(int(f[1:]), f) for f in fs if f[:1] == 'k'] + ([(1 << 40, 'f')] if 'f' in fs else [])
        return [(0, f) for _, f in sorted(r)]

    def contents():
        r = []
        for _, f in names():
            with open(d + '/o/' + f, 'rb') as fh:
                r.append(parse(fh.read(), enc))
        return r

    def receive():
        for i, k in socks.items():
            if closed[i] or k is None:
                continue
            try:
                if i in unread:     # ends with its answers unread: only look at them
                    b = k.recv(1 << 20, socket.MSG_PEEK)
                    got[i], closed[i] = b or got[i], not b
                    q = select.poll()
                    q.register(k, select.POLLRDHUP)
                    closed[i] |= bool(q.poll(0))
                    continue
                while True:
                    b = k.recv(65536)
                    if not b:
                        closed[i] = True
                        break
                    got[i] += b
            except BlockingIOError:
                pass
            except OSError:
                closed[i] = True

    def reptoks(b):
        r, A, F = [], ctl(1, [ct]), ctl(5)
        while b:
            if b.startswith(A):
                r.append('A')
                b = b[len(A):]
            elif b.startswith(F):
                r.append('F')
                b = b[len(F):]
            else:
                return r + ['?']
        return r

    def observe():
        """after a command: idle or exit"""
        if pr.alive and g.get('tcp'):        # delivery is asynchronous there
            for _ in range(3):
                time.sleep(.002)
                if not pr.cmd(b'g'):
                    break
        if not pr.alive:
            ev.append(dict(e='exit', rc=pr.rc))
            if not full:
                ev.append(dict(e='files', fs=contents(), how='end'))
            return False
        receive()
        nm = names() if not full else [(0, '')]
        ev.append(dict(e='idle', rep=[reptoks(got[i]) for i in order], closed=[closed[i] for i in order], nf=len(nm), t=nm[-1][0] if nm and pat else 0))
        return True

    crash = None
    try:
        pr = Prog(exe, args, stdout=ev_stdout, time=cur, fsize=g.get('lim'), tz=tz, cwd=d)
        go = observe()
        pend, hup = [], False
        for op in s['ops'] if go else ():
            k = op[0]
            if k == 'conn':
                i = op[1]
                try:
                    if g.get('tcp'):
                        c = socket.create_connection((loopback(), port))
                        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    else:
                        c = socket.socket(socket.AF_UNIX)
                        c.connect(d + '/s')
                    c.setblocking(False)
                    socks[i] = c
                except OSError:
                    socks[i] = None
                    closed[i] = True
                num[i] = len(order) + 1
                order.append(i)
                # data frames carry the number of their client
                assert all(x['id'] // 10000 == num[i] for x in clients[i] if x['k'] == 'data')
                ev.append(dict(e='conn', toks=[{a: b for a, b in x.items() if a[0] != '_'} for x in clients[i]]))
            elif k == 'tx':
                i, n = op[1], op[2]
                if socks[i] is None or not num.get(i):
                    continue
                try:
                    n = socks[i].send(streams[i][sent[i]:sent[i] + n])
                except OSError:
                    n = 0
                sent[i] += n
                if n:
                    ev.append(dict(e='tx', c=num[i], n=n))
            elif k == 'fin' or k == 'half':
                i = op[1]
                if socks[i] is None:
                    continue
                if k == 'fin':
                    if i not in unread:      # otherwise the program sees an error
                        receive()
                    socks[i].close()
                    socks[i] = None
                else:
                    try:
                        socks[i].shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
                ev.append(dict(e=k, c=num[i]))
            elif k == 'sig':
                if op[1] == 'usr1' and not pat and not std and not full:
                    kept += 1
                    if os.path.exists(d + '/o/f'):
                        os.rename(d + '/o/f', d + '/o/k%d' % kept)
                pend.append(op[1:])
                ev.append(dict(e='sig', s=op[1]))
                hup |= op[1] == 'hup'
            elif k == 'time':
                cur = op[1]
                ev.append(dict(e='time', t=cur))
                pr.ctl.sendall(b't%d\n' % cur)
                if not pr.idle():        # only looks for events
                    ev.append(dict(e='exit', rc=pr.rc))
                    break
            elif k == 'go':
                cmd = b'g'
                for j, x in enumerate(pend):
                    n = signal.SIGINT if len(x) > 2 and x[2] == 'int' else SIGNUM[x[0]]
                    how = x[1] if len(x) > 1 else 'k'
                    if j == len(pend) - 1 and how in 'kr':
                        cmd = b'%s%d\n' % (how.encode(), n)
                    else:
                        os.kill(pr.p.pid, n)
                pend = []
                pr.cmd(cmd)
                if not observe():
                    break
                if hup and not full:
                    ev.append(dict(e='files', fs=contents(), how='flush'))
                    hup = False
    except Hang:
        crash = 'hangs'
    finally:
        for c in socks.values():
            if c is not None:
                c.close()
        if pr:
            if pr.rc is not None and (pr.rc < 0 or pr.rc in (97, 99)):
                crash = 'exit status %d: %s' % (pr.rc, pr.err.decode('latin1')[-3000:])
            pr.done()
        if std:
            ev_stdout.close()
        shutil.rmtree(d, True)
    return ev, crash


# a 'time' command looks for events too; clients' bytes sent before it would be taken: scripts put it first
def public(s):
    return dict(s, clients=[[{a: b.hex()[:200] if isinstance(b, bytes) else b for a, b in x.items()} for x in t] for t in s['clients']])


def worker(a):
    exe, d, part = a
    out = []
    for i, s in part:
        out.append((i,) + run_case(exe, '%s/%d' % (d, i), s))
        if out[-1][2]:
            break
    return out


def run_all(ctx, exe, cases):
    parts = [list(enumerate(cases))[k::NCPU * 4] for k in range(NCPU * 4)]
    with multiprocessing.Pool(NCPU) as pool:
        res = sorted(r for p in pool.map(worker, [(exe, ctx.scratch, p) for p in parts], chunksize=1) for r in p)
    return res


# ---------------------------------------------------------------- scenarios
def term(rng):
    return ['sig', 'term', rng.choice('krs')] + ([rng.choice(['int', 'term'])])


def config(rng, g, **k):
    c = dict(ct=g.ct.hex(), now=rng.choice([0, 1000000, 1583020799, 1700000000, 951782399 + rng.randrange(86400)]))
    if g.buf != 262144 or rng.random() < .1:
        c['buf'] = g.buf
    c['dbg'] = rng.choice([0, 0, 0, 1, 3, 5])
    c.update(k)
    return c


def pattern(rng, c):
    c['pat'] = rng.choice(['f%Y%m%d-%H%M%S', 'f%Y%m%d-%H%M%S', 'f%s']) if c.get('tm') != 'localtime' else 'f%Y%m%d-%H%M%S'
    c.setdefault('tm', rng.choice(['gmtime', 'localtime']))
    if c['tm'] == 'localtime':
        c['off'] = rng.choice([0, 3600, -3600 * 8, 12600, 3600 * 5 + 1800])
        c['pat'] = 'f%Y%m%d-%H%M%S'
    elif c['pat'] != 'f%s':
        c['off'] = rng.choice([0, 3600, -12600])
    if c['pat'] != 'f%s' and rng.random() < .4:
        c['pat'] += '~' + ''.join(rng.choices(['%A', '%B', '%a', '%b', '%j', '%p', '%e', '%%', '%y', '%D'.replace('D', 'U'), 'x', '.', '%F'], k=rng.choice([1, 3, 10, 20])))[:48]
        if c['pat'].count('%A') + c['pat'].count('%B') + c['pat'].count('%F') > 18 or c['pat'].endswith('%') and c['pat'].count('%') % 2:
            c['pat'] = c['pat'].split('~')[0]
        elif rng.random() < .2:
            c['pat'] = c['pat'].split('~')[0] + '~' + rng.choice(['%A', '%B', '%F']) * 20
    return c


def chunks(rng, n, most=6):
    k = rng.choice([1, 2, 3, most])
    cuts = sorted(rng.randrange(n + 1) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n]) if b > a]


def simple(rng, g, toks, split, cfg, after=()):
    """one client sends its stream in the given pieces"""
    ops = [['conn', 0]]
    for n in split:
        ops += [['tx', 0, n], ['go']]
    return dict(cfg=cfg, clients=[toks], ops=ops + list(after) + [term(rng), ['go']])


def tiny(rng, buf=None):
    """small streams, small buffers"""
    ct = bytes(rng.randrange(97, 123) for _ in range(rng.choice([1, 2, 3])))
    return Gen(rng, ct, buf or rng.choice([27, 28, 32, 40, 64, 100]))


def splits(ctx, rng):
    """every division of a session into two or three packets; byte by byte"""
    out = []
    for rep in range(1 if ctx.quick else 8):
        for mk in (lambda: Gen(rng, buf=rng.choice([600, 262144])), lambda: tiny(rng)):
            g = mk()
            t = g.session(1, 3, .3 if g.buf < 200 else 0)
            if not g.fits(t):
                continue
            if any(x.get('_pad') for x in t):
                continue
            n = len(stream(t))
            if n > 400 and ctx.quick:
                t = [x for x in t if x['k'] != 'data' or x['n'] < 60]
                n = len(stream(t))
            out.append(simple(rng, g, t, [1] * n, config(rng, g)))
            for cut in range(1, n):
                out.append(simple(rng, g, t, [cut, n - cut], config(rng, g)))
                if rng.random() < .5:
                    a = rng.randrange(1, n)
                    l = sorted({0, cut, a, n})
                    out.append(simple(rng, g, t, [y - x for x, y in zip(l, l[1:])], config(rng, g)))
                if not ctx.quick:
                    b = rng.randrange(1, 5)
                    out.append(simple(rng, g, t, [cut] + [b] * ((n - cut) // b) + [(n - cut) % b][:(n - cut) % b], config(rng, g)))
    return out


def protocol(ctx, rng):
    """every token replaced, removed, doubled, swapped; anything in between"""
    out = []
    for rep in range(3 if ctx.quick else 60):
        for pos in range(6):
            for kind in range(9):
                g = Gen(rng) if rng.random() < .5 else tiny(rng)
                t = g.session(1, 2)
                old = rng.randrange
                w = None
                for _ in range(50):
                    w = g.wrong(1)
                    if [w['k'], w['cts']] != ['', []]:
                        break
                mode = rng.randrange(3)
                if mode == 0:
                    t.insert(pos, w)
                elif pos < len(t):
                    t[pos:pos + 1] = [w] if mode == 1 else [t[pos], t[pos]] if t[pos]['k'] != 'data' else []
                if g.fits(t) and len(t):
                    n = len(stream(t))
                    # token by token, or in other pieces
                    sp = [len(x['_b']) for x in t] if rng.random() < .5 and not any(x.get('_pad') for x in t) else chunks(rng, n)
                    out.append(simple(rng, g, t, sp, config(rng, g)))
    for rep in range(400 if ctx.quick else 6000):
        g = Gen(rng) if rng.random() < .5 else tiny(rng)
        t = g.spoiled(1, rng.randrange(5), .1)
        if g.fits(t) and t:
            n = len(stream(t))
            sp = [len(x['_b']) for x in t] if rng.random() < .5 and not any(x.get('_pad') for x in t) else chunks(rng, n)
            out.append(simple(rng, g, t, sp, config(rng, g)))
    return out


def oversize(ctx, rng):
    out = []
    for rep in range(1 if ctx.quick else 20):
        for buf in (27, 40, 64, 512, 600, 1024, 4096, 5000, 20000, 65536, 262144) + (() if ctx.quick else (1 << 20, 300000)):
            for d in (-1, 0, 1, 2, 4, buf, 2 * buf + 3):
                for lead in (0, 1, 2):
                    g = tiny(rng, buf) if buf < 100 else Gen(rng, buf=buf)
                    if buf > 100000 and (lead or d > buf) and ctx.quick:
                        continue
                    t = g.session(1, lead, 0, False)
                    t.append(g.data(1, buf + d))
                    t += [g.data(1, g.size() if buf < 5000 else 20) for _ in range(2)] + [g.control('stop')]
                    if not g.fits(t):
                        continue
                    n = len(stream(t))
                    sp = chunks(rng, n)
                    if rng.random() < .4:    # the length word of the large frame ends a packet
                        p = sum(len(x['_b']) for x in t[:2 + lead])
                        sp = [p + rng.choice([0, 3, 4, 5]), buf + rng.choice([-1, 0, 1, d, d + 1]), n]
                        sp = [x for x in sp if x > 0]
                    sp2 = []
                    for x in sp:
                        while x > 60000:
                            sp2.append(60000)
                            x -= 60000
                        if x:
                            sp2.append(x)
                    out.append(simple(rng, g, t, sp2 + [60000] * 2, config(rng, g)))
        for _ in range(60):
            g = tiny(rng) if rng.random() < .7 else Gen(rng, buf=rng.choice([512, 600, 5000]))
            t = g.session(1, rng.randrange(6), .4)
            if g.fits(t):
                out.append(simple(rng, g, t, chunks(rng, len(stream(t)), 10), config(rng, g)))
    return out


def signals(ctx, rng):
    """a signal, or the end of the interval, at every byte of a session"""
    out = []
    for rep in range(1 if ctx.quick else 10):
        for sig in ('usr1', 'hup', 'term', 'split', 'mix'):
            for mode in ('plain', 'pat', 'std'):
                if sig == 'split' and mode != 'pat' or rep and mode == 'std' and rng.random() < .5:
                    continue
                g = tiny(rng, rng.choice([28, 64, 1000]))
                t = g.session(1, 3, .2 if g.buf < 900 else 0)
                t = [x for x in t if x['n'] < 200]
                if not g.fits(t):
                    continue
                n = len(stream(t))
                for cut in range(n + 1) if not ctx.quick else rng.sample(range(n + 1), min(n + 1, 40)):
                    c = config(rng, g)
                    if mode == 'pat':
                        pattern(rng, c)
                    elif mode == 'std':
                        c['std'] = 1
                    now = c['now']
                    ops = [['conn', 0]]
                    if cut:
                        ops += [['tx', 0, cut], ['go']]
                    if sig == 'split':
                        c['split'] = rng.choice([1, 2, 10, 3600])
                        now += c['split'] + rng.choice([-1, 0, 0, 1])
                        ops += [['time', now]]
                    elif mode == 'pat':
                        now += rng.choice([1, 2, 59, 86400])
                        ops += [['time', now]]
                    both = rng.random() < .4 and cut < n and sig != 'split'
                    ops2 = [] if sig == 'split' else [['sig', sig if sig != 'mix' else 'hup', rng.choice('krs')]] if sig != 'term' else [term(rng)]
                    if sig == 'mix':
                        ops2.append(['sig', 'usr1', rng.choice('krs')])
                    if both:
                        ops2.insert(rng.randrange(2) if ops2 else 0, ['tx', 0, rng.randrange(1, n - cut + 1)])
                    ops += ops2 + [['go']]
                    k = rng.choice([1, 2, 3])
                    for _ in range(k):
                        ops += [['tx', 0, n], ['go']]
                        if rng.random() < .5:
                            if mode == 'pat':
                                now += (c.get('split') or 1) + rng.choice([0, 1])
                                ops += [['time', now]]
                            ops += [['sig', rng.choice(['hup', 'usr1']) if sig != 'split' else 'hup', 'k'], ['go']]
                    out.append(dict(cfg=c, clients=[t], ops=ops + [term(rng), ['go']]))
    return out


def failures(ctx, rng):
    """outputs that are full at every byte, that cannot be opened"""
    out = []
    for rep in range(1 if ctx.quick else 6):
        for mode in ('plain', 'pat', 'std'):
            g = tiny(rng, rng.choice([64, 1000]))
            t = g.session(1, 3)
            big = rng.random() < .5 or mode == 'plain'
            if big:       # beyond the stream's buffer: the write fails, not the close
                g = Gen(rng, b'ct', 10000)
                t = g.session(1, 0, 0, False) + [g.data(1, rng.choice([3000, 4000, 4096, 5000])) for _ in range(3)] + [g.control('stop')]
            if not g.fits(t):
                continue
            size = len(ctl(2, [g.ct])) + 12 + sum(x['n'] for x in t if x['k'] == 'data')
            lims = range(size + 2) if size < 200 and not ctx.quick else sorted({0, 1, size - 1, size, size + 1, size - 12, size - 13, size - 6} | {rng.randrange(size + 2) for _ in range(25)})
            for lim in lims:
                c = config(rng, g, lim=lim, dbg=0)
                if mode == 'pat':
                    pattern(rng, c)
                elif mode == 'std':
                    c['std'] = 1
                n = len(stream(t))
                ops = [['conn', 0]]
                for x in chunks(rng, n):
                    ops += [['tx', 0, x], ['go']]
                    if rng.random() < .3:
                        ops += [['sig', rng.choice(['hup', 'hup', 'usr1']), 'k'], ['go']] if mode != 'pat' else [['sig', 'hup', 'k'], ['go']]
                out.append(dict(cfg=c, clients=[t], ops=ops + [term(rng), ['go']]))
        for full in range(6):
            g = tiny(rng, 1000)
            t = g.session(1, full)
            c = config(rng, g, full=1, dbg=0)
            out.append(simple(rng, g, t, chunks(rng, len(stream(t))), c, [] if full % 2 else [['sig', rng.choice(['hup', 'usr1']), 'k'], ['go']]))
        for p in ('/nonexistent/x', 'o', 'o/none/f'):
            g = tiny(rng, 1000)
            out.append(dict(cfg=config(rng, g, bad=1, path=p), clients=[], ops=[term(rng), ['go']]))
    return out


def many(ctx, rng):
    """thousands of frames in few packets"""
    out = []
    for rep in range(3 if ctx.quick else 30):
        g = tiny(rng, rng.choice([64, 100, 262144]))
        cl = []
        for i in range(rng.choice([1, 1, 2])):
            t = g.session(i + 1, 0)
            t[2:2] = [g.data(i + 1, rng.choice([9, 9, 10, 12])) for _ in range(rng.choice([1200, 2500]))]
            cl.append(t)
        if not all(map(g.fits, cl)):
            continue
        ops, left = [['conn', i] for i in range(len(cl))], [len(stream(t)) for t in cl]
        while any(left):
            for i in range(len(cl)):
                n = min(left[i], rng.choice([1 << 16, 1 << 16, 20000]))
                if n:
                    ops.append(['tx', i, n])
                    left[i] -= n
            ops.append(['go'])
        out.append(dict(cfg=config(rng, g, dbg=0), clients=cl, ops=ops + [term(rng), ['go']]))
    for maxc in rng.sample(range(8, 64), 2 if ctx.quick else 20):     # a high limit, reached and passed
        g = tiny(rng, 100)
        cl = [g.session(i + 1, rng.choice([0, 1])) for i in range(maxc + 2)]
        ops = []
        for i in range(len(cl)):
            ops += [['conn', i], ['tx', i, rng.choice([len(stream(cl[i])) - 12, len(stream(cl[i][:1]))])]] + [['go']] * (i % 5 == 0)
        ops.append(['go'])
        if rng.random() < .5:
            for i in rng.sample(range(maxc), 3):
                ops += [['fin', i], ['go']]
        out.append(dict(cfg=config(rng, g, dbg=0, maxc=maxc), clients=cl, ops=ops + [term(rng), ['go']]))
    return out


def mixture(ctx, rng, count):
    """several clients, good and bad, limits, signals, time"""
    out = []
    while len(out) < count:
        g = tiny(rng, rng.choice([64, 100, 1000])) if rng.random() < .6 else Gen(rng, buf=rng.choice([600, 1024, 5000, 262144]))
        c = config(rng, g)
        if rng.random() < .45:
            c['maxc'] = rng.choice([1, 1, 2, 3, 5])
        if rng.random() < .4:
            pattern(rng, c)
            if rng.random() < .6:
                c['split'] = rng.choice([1, 2, 5, 60])
        elif rng.random() < .2:
            c['std'] = 1
        if rng.random() < .04:
            c['tcp'] = 1
        nc = rng.choice([1, 2, 2, 3, 4, 6]) if not c.get('maxc') else c['maxc'] + rng.choice([0, 1, 2, 4])
        cl = []
        for i in range(nc):
            t = g.session(i + 1, rng.randrange(6), rng.choice([0, 0, .3]), rng.random() < .8) if rng.random() < .65 else g.spoiled(i + 1, rng.randrange(5), rng.choice([0, .3]))
            cl.append(t)
        if not all(map(g.fits, cl)):
            continue
        st = [len(stream(t)) for t in cl]
        left = list(st)
        ops, nconn, live, now = [], 0, [], c['now']
        small = rng.random() < .3
        for _ in range(rng.choice([8, 20, 40, 60])):
            k = rng.random()
            fresh = not ops or ops[-1] == ['go']
            if nconn < nc and (not live or k < .2):
                ops.append(['conn', nconn])
                live.append(nconn)
                nconn += 1
            elif k < .6 and live:
                i = rng.choice(live)
                if left[i]:
                    n = min(left[i], rng.choice([1, 3, 4, 5, 8, 20]) if small else rng.choice([4, 20, 50, 100, 1 << 16]))
                    ops.append(['tx', i, n])
                    left[i] -= n
            elif k < .66 and live:
                i = rng.choice(live)
                if rng.random() < .6:
                    live.remove(i)
                    ops.append(['fin', i] + ['unread'] * (rng.random() < .5))
                else:
                    ops.append(['half', i])
                    live.remove(i)
            elif k < .74 and fresh and (c.get('pat') or rng.random() < .1):
                now += rng.choice([1, 1, c.get('split') or 1, 2, 59, 3600])
                ops.append(['time', now])
                if rng.random() < .5 and not c.get('split'):
                    ops.append(['sig', 'usr1', rng.choice('krs')])
            elif k < .8 and (not c.get('pat')):
                if ['sig', 'usr1'] not in [o[:2] for o in ops[-6:]]:
                    ops.append(['sig', 'usr1', rng.choice('krs')])
                    ops.append(['go'])
            elif k < .84:
                ops.append(['sig', 'hup', rng.choice('krs')])
                ops.append(['go'])
            else:
                ops.append(['go'])
        ops.append(['go'])
        for i in rng.sample(live, len(live)):       # finish
            while left[i] and rng.random() < .97:
                n = min(left[i], rng.choice([1 << 15, 60000]))
                ops.append(['tx', i, n])
                left[i] -= n
                if rng.random() < .5:
                    ops.append(['go'])
        ops.append(['go'])
        out.append(dict(cfg=c, clients=cl, ops=ops + [term(rng), ['go']]))
    return out


# ---------------------------------------------------------------- the specification
def dcfg(what='NoBad', mut='none', **k):
    d = dict(dict(NConn=1, NOps=6, MaxC=0, Split=0, Std='FALSE', Lim=BIG, Kinds='{"good"}', Chunks='{1, 2, 3, 4, 5, 7}', Sigs='{"term"}', Gen='FALSE'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS %s Mutation = "%s"\n' % (what, ' '.join('%s = %s' % x for x in d.items()), mut)


def names(s):
    return '{%s}' % ', '.join('"%s"' % x for x in s.split())


ALL = 'good two none over over2 early first late alien many bad len again finish overfirst'
DESIGN = dict(
    proto=dict(NOps=4, Chunks='{1, 3, 5, 7}', Kinds=names(ALL + ' fin half'), Sigs=names('term hup')),
    rot=dict(NOps=6, Chunks='{3, 5, 6}', Kinds=names('good over pat'), Sigs=names('usr1 hup term')),
    split=dict(NOps=6, Chunks='{3, 5, 7}', Kinds=names('good over'), Split=1, Sigs=names('hup term')),
    conns=dict(NConn=3, NOps=6, Chunks='{5}', MaxC=1, Kinds=names('two early fin'), Sigs=names('term')),
    lim=dict(NOps=5, Lim=20, Chunks='{5, 7}', Kinds=names('good'), Sigs=names('hup term')),
    two=dict(NConn=2, NOps=5, Chunks='{5, 7}', Kinds=names('good over early'), Sigs=names('term usr1')))
MUT = dict(acceptall='conns', finish2='rot', hupnop='split', leakslot='conns', loselast='split', noclose='proto', nomatch='proto', nomatch2='proto', norelisten='conns', overoff='split',
           overwait='proto', rcok='lim', recnostart='conns', recstop='proto', restart='proto', rotagain='split', rotdup='split', rotnostop='rot', rotsame='rot', skipnext='proto', termnostop='rot')
FOR = dict(P01=('split lim', 'loselast rotdup rotnostop termnostop rcok skipnext'), P02=('proto', 'finish2 noclose nomatch nomatch2 recnostart recstop restart'),
           P03=('rot split', 'hupnop loselast rotagain rotdup rotnostop rotsame termnostop'), P04=('conns lim', 'acceptall leakslot norelisten overoff overwait skipnext'))


def design(ctx):
    cfgs, muts = FOR[ctx.prop]
    cfgs, muts = cfgs.split(), muts.split()
    if ctx.quick:
        muts = ctx.rng.sample(muts, 3)
    else:
        cfgs = cfgs + [c for c in DESIGN if c not in cfgs]
        muts = sorted(MUT)
    for c in cfgs:
        check_design(ctx, 'Capture', dcfg(**DESIGN[c]), [(m, dcfg(mut=m, **DESIGN[MUT[m]])) for m in muts] if c == cfgs[0] else ())


GENERATE = [dict(NOps=5, Kinds=names(ALL + ' fin half'), Sigs=names('term hup')), dict(NOps=10, Kinds=names(ALL + ' pat'), Sigs=names('usr1 hup term')),
            dict(NOps=10, Kinds=names('good over two early fin'), Split=2, Sigs=names('hup term')), dict(NConn=3, NOps=10, MaxC=1, Kinds=names(ALL + ' fin half'), Sigs=names('hup term')),
            dict(NConn=4, NOps=14, MaxC=2, Kinds=names('two early bad over fin'), Sigs=names('term')), dict(NConn=3, NOps=12, Kinds=names(ALL + ' fin half'), Sigs=names('usr1 term')),
            dict(NConn=2, NOps=8, Lim=20, Kinds=names('good'), Sigs=names('hup term'))]


def generated(ctx, rng):
    """behaviours of the specification, with concrete bytes"""
    num = 250 if ctx.quick else 4000
    cfgs = GENERATE
    if ctx.quick:
        cfgs = [GENERATE[i] for i in dict(P01=(1, 5, 6), P02=(0, 3, 5), P03=(1, 2, 5), P04=(3, 4, 5))[ctx.prop]]

    def gen(a):
        k, seed = a
        r = tlc(ctx, 'Capture', dcfg('Emit', **dict(k, Gen='TRUE')), args=['-simulate', 'num=%d' % num, '-depth', '200', '-seed', str(seed)], workers=1, heap='2g', name='Capture-gen%d' % seed)
        return {m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)}
    seeds = [(k, rng.randrange(1 << 30)) for k in cfgs]
    out = []
    for (k, _), scripts in zip(seeds, run_parallel(gen, seeds, 4)):
        for x in sorted(scripts):
            x = json.loads(x.replace('\\"', '"'))
            out.append(concrete(rng, x['cl'], x['h'], k))
    if not out:
        raise CheckError('the specification generated no scenarios')
    ctx.extra['spec_generated_scenarios'] = len(out)
    return out


def concrete(rng, cl, h, k):
    g = tiny(rng, rng.choice([64, 100, 1000]))
    c = config(rng, g)
    unit = 1
    if k.get('Split') or 'pat' in k['Kinds']:
        pattern(rng, c)
        if k.get('Split'):
            unit = rng.choice([1, 3, 60])
            c['split'] = k['Split'] * unit
    if k.get('MaxC'):
        c['maxc'] = k['MaxC']
    clients, units = [], []
    for i, name in enumerate(cl):
        t, u, n = [], [], i + 1

        def d(size):
            t.append(g.data(n, g.buf if size == 4 else g.size() if size == 3 else min(g.over(), g.buf * 4)))
            u.append(size)

        def ct(kind, how='ours'):
            t.append(g.bad() if kind == 'bad' else g.badlen() if kind == 'len' else g.control(kind, how))
            u.append(2)
        for x in dict(good='R S 3 4 E', two='R S 3 E', none='R- S- 3 3', over='R S 3 6 3 E', over2='R S 6 6 4 E', early='R 3 S 3 E', first='3 R S 3', late='R S 3 E 3 E',
                      alien='Rx S 3 E', many='Rm Sx 3 E', bad='R S 3 B 3 E', len='R L S 3', again='R S 3 S 3 E', finish='R S F 3 E', overfirst='6 R S 3 E')[name].split():
            if x in '346':
                d(int(x))
            else:
                ct(dict(R='ready', S='start', E='stop', F='finish', B='bad', L='len')[x[0]], 'none' if x[0] in 'EF' else {'': 'ours', '-': 'none', 'x': 'other', 'm': 'many'}[x[1:]])
        while not all(y['n'] <= g.buf or y['k'] in ('data', 'len') for y in t):      # control frames with large types
            g.buf *= 2
            c['buf'] = g.buf
            return concrete(rng, cl, h, k)
        # unit offset -> byte offset
        pos, at = [0], 0
        for y, m in zip(t, u):
            b = len(y['_b'])
            pos += sorted(at + (j * b) // m if rng.random() < .5 else at + rng.randrange(1, b) for j in range(1, m)) + [at + b]
            at += b
        clients.append(t)
        units.append(pos)
    if k.get('Lim'):
        c['lim'] = rng.randrange(len(ctl(2, [g.ct])) + 12 + sum(x['n'] for t in clients for x in t) + 1)
    ops, sent = [], [0] * len(cl)
    nc = 0
    for x in h:
        if x[0] == 'conn':
            ops.append(['conn', nc])
            nc += 1
        elif x[0] == 'tx':
            i = x[1] - 1
            a = units[i][sent[i]]
            sent[i] += x[2]
            b = units[i][sent[i]]
            if b > a:
                ops.append(['tx', i, b - a])
        elif x[0] in ('fin', 'half'):
            ops.append([x[0], x[1] - 1] + (['unread'] if x[0] == 'fin' and rng.random() < .5 else []))
        elif x[0] == 'sig':
            ops.append(term(rng) if x[1] == 'term' else ['sig', x[1], rng.choice('krs')])
        elif x[0] == 'time':
            ops.append(['time', c['now'] + x[1] * unit])
        else:
            ops.append(['go'])
    return dict(cfg=c, clients=clients, ops=ops)


FAMILIES = dict(P01=('splits oversize failures signals many', 900), P02=('protocol protocol splits', 600), P03=('signals signals failures', 900), P04=('oversize protocol many', 1300))


def check(ctx):
    design(ctx)
    try:
        exe = build_programs(ctx, ['capture'])['capture']
    except BuildFailed as e:
        raise CheckError('fstrm_capture does not build: %s' % e)
    fams, nmix = FAMILIES[ctx.prop]
    cases = generated(ctx, ctx.rng)
    for f in fams.split():
        cases += globals()[f](ctx, ctx.rng)
    cases += mixture(ctx, ctx.rng, nmix if ctx.quick else 25000)
    ctx.log('%d scenarios' % len(cases))
    res = run_all(ctx, exe, cases)
    for i, e, c in res:
        if c:
            again = run_case(exe, ctx.scratch + '/again', cases[i])[1]
            if again:
                ctx.violate('fstrm_capture %s' % ('hangs' if again == 'hangs' else 'crashes'), {'scenario.json': public(cases[i]), 'trace.json': e, 'what.txt': again})
                return
            raise CheckError('fstrm_capture: %s (not repeated)' % c)
    traces = [dict(id=i, ev=e) for i, e, _ in res]
    ev = [e for t in traces for e in t['ev']]
    ctx.extra.update(runs=len(cases), events=len(ev), clients=sum(e['e'] == 'conn' for e in ev), packets=sum(e['e'] == 'tx' for e in ev), signals=sum(e['e'] == 'sig' for e in ev),
                     outputs=sum(len(e['fs']) for e in ev if e['e'] == 'files' and e['how'] == 'end'), failing_exits=sum(e['e'] == 'exit' and e['rc'] != 0 for e in ev),
                     frames=sum(u > 0 for e in ev if e['e'] == 'files' and e['how'] == 'end' for f in e['fs'] for u in f['us']), answers=sum(len(r) for t in traces for r in (([e for e in t['ev'] if e['e'] == 'idle'] or [dict(rep=[])])[-1]['rep'])))
    ctx.sample(dict(scenario=public(cases[0])['ops'], ev=traces[0]['ev'][:20]))
    bad = validate(ctx, 'CaptureTrace', traces)
    if bad:
        t, l, out = bad
        ctx.violate('rules broken at event %d: %s' % (l, str(t['ev'][l - 1])[:2000]), {'scenario.json': public(cases[t['id']]), 'trace.json': t, 'tlc.txt': out[-6000:]})
