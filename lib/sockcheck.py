"""T01, T02: socket writers over a simulated kernel, judged by SockRules."""
import subprocess
from common import *

SYS = 'socket connect close sendmsg writev send sendto write read recv recvfrom recvmsg readv fcntl setsockopt getsockopt shutdown poll select'.split()
AF = dict(tcp4=2, tcp6=10, unix=1)
READY, START, STOP = -1, -2, -3


def control(t, ct):
    p = t.to_bytes(4, 'big') + (b'\0\0\0\1\0\0\0\2ct' if ct else b'')
    return b'\0\0\0\0' + len(p).to_bytes(4, 'big') + p


def frame(i, n):
    b = bytes((i & 255 if j == 0 else i >> 8 & 255 if j == 1 else i * 31 + j * 7 + (j >> 8) & 255) for j in range(n))
    return n.to_bytes(4, 'big') + b


class Stream:
    """Splits the accepted bytes of one connection into units."""
    def __init__(self, enc):
        self.enc, self.buf, self.junk = enc, b'', False

    def feed(self, data):
        self.buf += data
        out = []
        while not self.junk:
            b = self.buf
            if len(b) < 4:
                break
            n = int.from_bytes(b[:4], 'big')
            if n == 0:
                if len(b) < 8:
                    break
                total = 8 + int.from_bytes(b[4:8], 'big')
            else:
                total = 4 + n
            cand = [u for u, x in self.enc.items() if len(x) == total] if len(b) >= total else \
                   [u for u, x in self.enc.items() if x.startswith(b)]
            if len(b) < total:
                if not cand:
                    self.junk = True
                    out.append(0)
                break
            u = next((u for u in cand if self.enc[u] == b[:total]), 0)
            out.append(u)
            if u == 0:
                self.junk = True
            self.buf = b[total:]
        return out

    def tail(self):
        return [u for u, x in self.enc.items() if x.startswith(self.buf)] if self.buf else []


def events(lines, s):
    enc = {READY: control(4, s['ct']), START: control(2, s['ct']), STOP: control(3, 0)}
    used = {0: 'none', 22 if s['ct'] else 12: 'accept', 34 if s['ct'] else 24: 'finish'}
    addr = s['addr'].encode().hex() if s['kind'] == 'unix' else '%s|%s' % (s['addr'], s['port'])
    streams, pos, last, ev, sent = {}, {}, None, [], False
    for l in lines:
        f = l.split()
        k = f[0]
        if k == 'call':
            ids, sent = [], False
            for x in f[2:]:
                i, n = map(int, x.split(':'))
                ids.append(i)
                enc[i] = frame(i, n)
            ev.append(dict(e='call', op=f[1], ids=ids))
        elif k == 'ret':
            st = streams.get(last)
            tail = bool(sent and st and st.buf)
            ev.append(dict(e='ret', ok=f[1] == 'ok', tail=tail, cand=st.tail() if tail else [], used=used.get(pos.get(last, 0), 'mid')))
        elif k == 'socket':
            if f[1] in ('einval', 'err'):
                ev.append(dict(e='nosock', weak=f[1] == 'einval'))
            else:
                last = int(f[1])
                streams[last], pos[last] = Stream(enc), 0
                ev.append(dict(e='socket', fd=last))
                if int(f[2]) != AF[s['kind']] or f[3] != '1' or (s['kind'] == 'unix' and f[4] != '0') or f[4] not in ('0', '6'):
                    ev.append(dict(e='X', what='wrong kind of socket'))
        elif k in ('cloexec', 'nocloexec'):
            ev.append(dict(e='cloexec', fd=int(f[1]), on=k == 'cloexec'))
        elif k == 'connect':
            ev.append(dict(e='connect', fd=int(f[1]), addr=f[2] == addr, ok=f[3] == 'ok'))
        elif k == 'snd':
            sent = True
            ev.append(dict(e='snd', fd=int(f[1]), nosig=f[2] == '1', res=f[3]))
            if f[3] == 'ok':
                us = streams[int(f[1])].feed(bytes.fromhex(f[4] if len(f) > 4 else ''))
                if us:
                    ev.append(dict(e='units', us=us))
                elif ev[-2] == ev[-1]:
                    ev.pop()        # nothing new: the rules are indifferent to repetition
        elif k == 'rcv':
            ev.append(dict(e='rcv', fd=int(f[1]), res=f[2]))
            if f[2] in ('ok', 'eof'):
                pos[int(f[1])] = int(f[3])
        elif k == 'close':
            ev.append(dict(e='close', fd=int(f[1]), ok=f[2] == 'ok'))
        elif k == 'badfd':
            ev.append(dict(e='badfd'))
        else:
            ev.append(dict(e='X', what=l))
    return ev


def line(s):
    return ' '.join('%s=%s' % kv for kv in s.items()) + '\n'


def run_lines(exe, scen):
    p = subprocess.run([exe], input=''.join(line(s) for s in scen), capture_output=True, text=True, errors='replace', timeout=800, env=dict(os.environ, **ASAN_ENV))
    hist, cur, buf = {}, None, []
    for l in p.stdout.split('\n'):
        if l.startswith('case '):
            cur, buf = int(l[5:]), []
        elif l == 'end':
            hist[cur] = tuple(buf)
            cur = None
        elif cur is not None:
            buf.append(l)
    return hist, (cur if cur is not None else -1) if p.returncode or cur is not None else None, p.stderr[-3000:]


def dcfg(what='NoBad', mut='none', **k):
    d = dict(dict(NOps=4, MaxFail=1, Size=2, Gen='FALSE'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS %s Mutation = "%s"\n' % (what, ' '.join('%s = %s' % x for x in d.items()), mut)


MUT = 'inherit leakconn sigpipe resend skip short eintr ignore keepopen shortread eintrread eofok closetwice'.split()
WHO = dict(tcp4=[('127.0.0.1', '80'), ('192.0.2.33', '65535'), ('10.0.0.1', '1')], tcp6=[('::1', '443'), ('2001:db8::5', '6000')],
           unix=[('/tmp/x', '0'), ('/' + 'p' * 106, '0'), ('relative', '0')])


# EPIPE.. ENOBUFS ENOMEM EAGAIN EACCES EMSGSIZE ENETDOWN ENETUNREACH EHOSTUNREACH ETIMEDOUT EBUSY EDESTADDRREQ ENOTCONN EINVAL EIO ENOSPC EDQUOT EFAULT EALREADY EINPROGRESS ECONNABORTED ECANCELED ERESTART
SENDERR = [32, 105, 12, 11, 13, 90, 100, 101, 113, 110, 16, 89, 107, 22, 5, 28, 122, 14, 114, 115, 103, 125, 85, 1, 62]
RECVERR = [104, 111, 12, 11, 22, 107, 110, 5, 113, 16, 105, 103, 125, 85, 62]


def base(rng, **kw):
    kind = rng.choice(['tcp4', 'tcp6', 'unix', 'unix'])
    a, p = rng.choice(WHO[kind])
    return dict(dict(kind=kind, addr=a, port=p, ct=rng.choice([0, 1])), **kw)


def spec_scenarios(ctx, rng):
    num = 300 if ctx.quick else 6000
    scripts = set()
    for size, nops, mf in ((2, 3, 1), (3, 5, 2), (2, 6, 3)):
        r = tlc(ctx, 'Sock', dcfg('Emit', Gen='TRUE', NOps=nops, MaxFail=mf, Size=size), args=['-simulate', 'num=%d' % num, '-depth', '200', '-seed', str(rng.randrange(1 << 30))], workers=1, heap='2g')
        scripts |= {m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)}
    out = []
    for g in sorted(scripts):
        h = json.loads(g.replace('\\"', '"'))['h']
        s = base(rng)
        ops, conns, sizes, i = [], [], {}, 0
        start = len(control(2, s['ct']))
        cur = None
        pending = []     # byte sizes of the units that the present call sends
        pos = rpos = 0
        for x in h:
            if isinstance(x, str) and x[0] in 'oc' and len(x) == 1 or isinstance(x, str) and x[0] == 'w':
                if x[0] == 'w':
                    n = [rng.choice([1, 2, 3, 9, 300]) for _ in range(int(x[1:]))]
                    ops.append('w' + '+'.join(map(str, n)))
                    data = [4 + k for k in n]
                else:
                    ops.append(x)
                    data = [12] if x == 'c' else []
                pending = list(data) if cur is not None and not cur.get('over') else [start, start] + data
                if cur is not None and not cur.get('over') and x == 'o':
                    cur = None
            elif x == 'S':
                cur = dict(b=[], q=[], over=False)
                conns.append(cur)
                pos = rpos = inside = 0
            elif x == 'Se':
                conns.append(dict(raw='S24', over=True))
                cur = conns[-1]
            elif cur is None:
                pass
            elif x == 'Ce':
                cur['c'] = 'C111'
                cur['over'] = True
            elif x == 'e':
                cur['b'].append('%d:e%d' % (pos + inside, rng.choice([32, 104, 11, 5, 110])))
                cur['over'] = True
            elif x in ('err', 'eof'):
                if x == 'err':
                    cur['q'].append('%d:e104' % rpos)
                else:
                    cur['i'] = 'i%d' % rpos
                cur['over'] = True
            elif x == 'xe':
                cur['x'] = 'x5'
            elif x[0] == 'r':
                if x[1]:
                    cur['q'].append('%d:n' % (rpos + rng.randrange(1, 11)))
                else:
                    rpos = (22 if s['ct'] else 12) if rpos == 0 else rpos + 12
            else:
                n, part = x
                pos += sum(pending[:n])
                if n:
                    inside = 0
                del pending[:n]
                if part and pending and inside < pending[0] - 1:
                    inside = rng.randrange(inside + 1, pending[0])
                cur['b'].append('%d:n' % (pos + inside))
            if x == 'c':
                pass
        plan = []
        for c in conns:
            if 'raw' in c:
                plan.append(c['raw'])
                continue
            t = [c[k] for k in 'cix' if k in c]
            if c['b']:
                t.append('b' + '.'.join(c['b']))
            if c['q']:
                t.append('q' + '.'.join(c['q']))
            plan.append(';'.join(t) or 'x0')
        out.append(dict(s, ops=','.join(ops), conns='/'.join(plan + ['x0'])))
    if not out:
        raise CheckError('the specification generated no scenarios')
    ctx.extra['spec_generated_scenarios'] = len(out)
    return out


def rand_run(rng):
    s = base(rng)
    ops = []
    for _ in range(rng.choice([2, 4, 8, 12])):
        r = rng.random()
        ops.append('w' + '+'.join(str(rng.choice([1, 2, 3, 4, 5, 8, 20, 100, 1000])) for _ in range(rng.choice([1, 1, 2, 3, 10, 40]))) if r < .6 else
                   'o' if r < .75 else 'c' if r < .92 else 'g')
    if rng.random() < .6:
        ops.insert(0, 'o')
    plans = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        t = []
        r = rng.random()
        if r < .06:
            t.append('S24')
        elif r < .14:
            t.append('C%d' % rng.choice([4, 111, 110]))
        if rng.random() < .05:
            t.append('I')
        if rng.random() < .3:
            t.append('i%d' % rng.choice([0, 3, 11, 12, 13, 22, 23, 24, 30, 34, 36]))
        if rng.random() < .1:
            t.append('x5')
        if rng.random() < .6:
            t.append('s' + '.'.join(rng.choice(['i', '1', '2', '3', '7', '50', '200'] + (['e32'] if rng.random() < .1 else [])) for _ in range(rng.choice([1, 5, 30]))) + rng.choice(['', '.p1', '.p5', '.p100']))
        if rng.random() < .3:
            t.append('b%d:%s' % (rng.randrange(400), rng.choice(['n', 'i', 'e32', 'e104'])))
        if rng.random() < .5:
            t.append('r' + '.'.join(rng.choice(['i', '1', '2', '3', '7'] + (['e104'] if rng.random() < .1 else [])) for _ in range(rng.choice([1, 5, 12]))) + rng.choice(['', '.p1']))
        plans.append(';'.join(t) or 'x0')
    return dict(s, ops=','.join(ops), conns='/'.join(plans))


def scenarios(ctx, rng):
    q = ctx.quick
    out = spec_scenarios(ctx, rng)
    for kind in ('tcp4', 'unix'):
        for ct in (0, 1):
            a, p = WHO[kind][0]
            b = dict(kind=kind, addr=a, port=p, ct=ct)
            hs = 44 if ct else 24
            # every byte of a session: a short write, an interruption, an error there
            ops, total = 'o,w3+1+9,w5,c', hs + 7 + 5 + 13 + 9 + 12
            for k in range(total):
                for item in ('n', 'i', 'e32', 'e104', 'e11', 'e%d' % rng.choice(SENDERR)):
                    out.append(dict(b, ops=ops + ',o,w4,c', conns='b%d:%s/x0' % (k, item)))
                out.append(dict(b, ops='w3+1+9,w5,c,w1,o,w7', conns='b%d:i.%d:n;rp1/b%d:n' % (k, k + 1, k)))
            for k in range(0, 40):
                for item in ('n', 'i', 'e104', 'e5', 'e%d' % rng.choice(RECVERR)):
                    out.append(dict(b, ops=ops + ',o,w4,c', conns='q%d:%s/x0' % (k, item)))
                out.append(dict(b, ops=rng.choice([ops, 'g,w3,c']) + ',o,w4,c', conns='i%d%s/x0' % (k, rng.choice(['', ';rp1', ';rp3', ';r2.i.i.1']))))
            for e in (1, 24, 22, 97, 23, 12, 105, 93, 13, 4, 11):
                out.append(dict(b, ops='o,o,w3,c', conns='S%d/x0' % e))
                out.append(dict(b, ops='w2,w3,c', conns='S%d/S%d/x0' % (e, e)))
            for e in (4, 111, 110, 2, 13, 115, 11, 114, 106, 98, 99, 101, 113, 22, 1, 97, 103, 12, 105):
                out.append(dict(b, ops='o,o,w3,c,o,w4,d', conns='C%d/x0/C%d' % (e, e)))
                out.append(dict(b, ops='g,w3,w3,c,o', conns='C%d/I/I;C%d' % (e, e)))
            out.append(dict(b, ops='o,w3,c,o,w3,c', conns='I/I;sp1'))
            # the descriptor may have any number
            for fd in (0, 1, 2, 3, 1023, 1024, 65535, 65536, 1000000):
                for pl in ('x0', 'C111/x0', 'x5', 'S24/x0', 'I', 'b%d:e32/x0' % (hs + 3), 'i3/x0', 'f22', 'F22', 'F1', 'f9/x0;b%d:i' % hs, 'F9/x0;C111/x0'):
                    out.append(dict(b, fd0=fd, ops='o,w3+5,c,o,o,w4,w1', conns=pl))
            # many sessions with one handle
            for n in (20, 70, 300):
                for pl in ('x0', 'i3', 'C111/x0', 'b%d:e32' % (hs + 9), 'x5', 's1.7.p100', 'r1.i.p5', 'i3/C2/x0/S24/x5'):
                    out.append(dict(b, ops=','.join(['o,w3+5,w1,c', 'o,c', 'w2,c', 'o,w2'][k % 3] for k in range(n)), conns='/'.join([pl] * n)))
            for e in (5, 4, 28):
                out.append(dict(b, ops='o,w3,c,o,w3,c,o', conns='x%d/x%d/i3;x%d' % (e, e, e)))
                out.append(dict(b, ops='o,w3,w3,c,o,w3,d', conns='b%d:e32;x%d/b%d:e32;x%d' % (hs + 3, e, hs, e)))
            for n in (255, 256, 511, 512, 513, 600, 1023, 1024, 1025, 2000):
                for pl in ('x0', 'sp1000', 'sp%d' % rng.choice([7, 5, 4999, 2048]), 's1.p6'):
                    out.append(dict(b, ops='w' + '+'.join(str(1 + i % 3) for i in range(n)) + ',w3,c', conns=pl))
            for n in (4095, 65535, 65536, 100000, 400000 if q else 3000000):
                for pl in ('x0', 'sp65536', 's10.i.100.i.1.p50000', 'sp4096'):
                    out.append(dict(b, ops='w%d+1+%d,w3,c' % (n, n), conns=pl))
    out += [rand_run(rng) for _ in range(1500 if q else 40000)]
    return out


def init_cases():
    c = []
    for a in ('127.0.0.1', '10.1.2.3', '::1', 'fe80::1', '2001:db8::1', '::ffff:1.2.3.4'):
        c += [('tcp', a, p, 'ok') for p in ('1', '80', '443', '8080', '65534', '65535')]
        c += [('tcp', a, p, 'no') for p in ('65536', '65537', '65616', '131072', '4294967296', '4294967376', '18446744073709551616', '99999999999999999999999', '-1', '-80', 'http', '80x', '1e3', 'x', '80.0', '~', '8x', '808x', '8080x', '12345x', '65535x', '065535x', '80,', '80;', '+80x')]
    for a in ('localhost', '256.1.1.1', '1.2.3', '1.2.3.4.5', ':::', '12345::', 'g::1', '1.2.3.4:80', '[::1]', '~', 'example.com', '1.2.3.4/8', '127.0.0.1x', '::1x'):
        c += [('tcp', a, p, 'no') for p in ('80', '~', '1')]
    c += [('unix', '@%d' % n, '~', 'ok' if n <= 107 else 'no') for n in list(range(1, 130)) + [255, 256, 300, 4096]] + [('unix', '~', '~', 'no')]
    return c


def check(ctx):
    muts = MUT if not ctx.quick else ctx.rng.sample(MUT, 6)
    check_design(ctx, 'Sock', dcfg(), [(m, dcfg(mut=m)) for m in muts])
    check_design(ctx, 'Sock', dcfg(MaxFail=2, Size=3))
    if not ctx.quick:
        check_design(ctx, 'Sock', dcfg(MaxFail=4, Size=4, NOps=7))
    exe = build(ctx, 'sock', [HARNESS + '/sock_driver.c'] + lib_sources(), ASAN + ['-U_FORTIFY_SOURCE', '-I' + REPO + '/fstrm'],
                ASAN[:1] + ['-fsanitize=undefined'] + ['-Wl,--wrap=' + w for w in SYS])
    scen = scenarios(ctx, ctx.rng)
    for i, s in enumerate(scen):
        scen[i] = dict(id=i, **s)
    groups = [scen[k::4 * NCPU] for k in range(4 * NCPU)]
    traces, seen, nev = [], set(), 0
    for g, (h, crash, err) in zip(groups, run_parallel(lambda g: run_lines(exe, g), groups)):
        if crash is not None:
            c = again(lambda x: run_lines(exe, x)[1], g, [s for s in g if s['id'] == crash], err)
            ctx.violate('the library crashed or hung', {'case.txt': ''.join(map(line, c)), 'stderr.txt': err})
            return
        for s in g:
            key = (h[s['id']], s['kind'], s['addr'], s['ct'])
            if key not in seen:
                seen.add(key)
                traces.append(dict(id=s['id'], ev=events(h[s['id']], s)))
    cases = init_cases()
    p = subprocess.run([exe], input=''.join('init %s %s %s\n' % c[:3] for c in cases), capture_output=True, text=True, errors='replace', env=dict(os.environ, **ASAN_ENV))
    got = [l for l in p.stdout.split('\n') if l.startswith('init ')]
    if p.returncode or len(got) != len(cases):
        c = cases[min(len(got), len(cases) - 1)]
        ctx.violate('creating a writer crashed', {'case.txt': 'init %s %s %s\n' % c[:3], 'stderr.txt': p.stderr[-3000:]})
        return
    for c, l in zip(cases, got):
        traces.append(dict(id=-1, case=list(c), ev=[dict(e='init', want=c[3], ok=l == 'init 1')]))
    ctx.extra.update(runs=len(scen), distinct_histories=len(seen), creation_cases=len(cases), events=sum(len(t['ev']) for t in traces),
                     interruptions=sum(e.get('res') == 'intr' for t in traces for e in t['ev']), send_errors=sum(e['e'] == 'snd' and e['res'] == 'err' for t in traces for e in t['ev']),
                     partial_sends=sum(e['e'] == 'ret' and e['tail'] for t in traces for e in t['ev']))
    ctx.sample(dict(run=line(scen[traces[0]['id']]), ev=traces[0]['ev'][:30]))
    bad = validate(ctx, 'SockTrace', traces)
    if bad:
        t, l, out = bad
        ctx.violate('rules broken at event %d: %s' % (l, t['ev'][l - 1]),
                    {'scenario.txt': line(scen[t['id']]) if t['id'] >= 0 else 'init %s %s %s\n' % tuple(t['case'][:3]), 'trace.json': t, 'tlc.txt': out[-5000:]})
