"""T03: file readers and writers on real files, limited devices and faulty streams, judged by FileRules."""
import subprocess, zlib
from common import *
from sockcheck import control, frame

START, STOP = -2, -3
MUT = 'append append2 badok ignorewrite lastfirst nostop noflush ignoreclose leak errstop nocontinue early again'.split()
BIG = 1 << 30


def dcfg(what='NoBad', mut='none', **k):
    d = dict(dict(NOps=5, Size=2, MaxFrames=3, Gen='FALSE'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS %s Mutation = "%s"\n' % (what, ' '.join('%s = %s' % x for x in d.items()), mut)


def parse(data, enc):
    """bytes -> (whole units, remainder?, units the remainder may begin)"""
    us, by = [], {x: u for u, x in enc.items()}
    while data:
        n = int.from_bytes(data[:4], 'big')
        total = 4 + n if n else 8 + int.from_bytes(data[4:8], 'big') if len(data) >= 8 else 1 << 40
        if len(data) < total:
            return us, True, [u for u, x in enc.items() if x.startswith(data)]
        u = by.get(data[:total], 0)
        us.append(u)
        if u == 0:
            break
        data = data[total:]
    return us, False, []


class Content:
    """A file to read: START, frames, STOP, cut somewhere."""
    def __init__(self, ctx, ct, lens, stop=True, cut=None):
        self.enc = {START: control(2, ct), STOP: control(3, 0)}
        for i, n in enumerate(lens):
            self.enc[i + 1] = frame(i + 1, n)
        order = [START] + list(range(1, len(lens) + 1)) + ([STOP] if stop else [])
        self.bytes = b''.join(self.enc[u] for u in order)
        self.ends, p = [], 0
        for u in order:
            p += len(self.enc[u])
            self.ends.append(p)
        self.order = order
        if cut is not None:
            self.bytes = self.bytes[:cut]
        self.crc = {(len(x) - 4, '%08x' % zlib.crc32(x[4:])): u for u, x in self.enc.items()}
        self.path = ctx.path('in', '%d' % random.getrandbits(50))
        with open(self.path, 'wb') as f:
            f.write(self.bytes)

    def units(self, limit):
        return [u for u, e in zip(self.order, self.ends) if e <= min(limit, len(self.bytes))]


def line(i, s):
    return '%d %s\n' % (i, ' '.join('%s=%s' % (k, v) for k, v in s.items() if k[0] != '_'))


def cfg_event(s):
    ck = s.get('ck', '')
    lim, cf, rl = s.get('lim', BIG), 'c' in ck, BIG
    for m in re.finditer(r'([wWr])(\d+)', ck):
        if m.group(1) in 'wW':
            lim = int(m.group(2))
        else:
            rl = int(m.group(2))
    if s['path'] == '/dev/full':
        lim = 0
    e = dict(e='cfg', kind=s['kind'], bad=bool(s.get('_bad')), lim=lim, cfault=cf, start=len(control(2, s['ct'])), stop=12, us=[], end='eof')
    if s['kind'] == 'r' and '_c' in s:
        e['us'] = s['_c'].units(rl)
        e['end'] = 'err' if s.get('std') == 'pty' or s.get('_err') or rl < len(s['_c'].bytes) or rl < BIG else 'eof'
    elif s.get('_err'):
        e['end'] = 'err'
    return e


def events(lines, s):
    ev, enc = [cfg_event(s)], {START: control(2, s['ct']), STOP: control(3, 0)}
    last = None
    for l in lines:
        f = l.split()
        if f[0] == 'call':
            ids, n = [], 0
            for x in f[2:]:
                i, k = map(int, x.split(':'))
                ids.append(i)
                enc[i] = frame(i, k)
                n += 4 + k
            ev.append(dict(e='call', op=f[1], ids=ids, n=n))
        elif f[0] == 'ret':
            u = s['_c'].crc.get((int(f[2]), f[3]), 0) if len(f) > 2 and '_c' in s else 0
            ev.append(dict(e='ret', res=f[1], u=u))
        elif f[0] == 'file':
            if len(f) > 1 and f[1] == 'none':
                f = f[:1]
            us, tail, cand = parse(bytes.fromhex(f[1]) if len(f) > 1 else b'', enc)
            ev.append(dict(e='file', us=us, tail=tail, cand=cand))
        elif f[0] in ('fds', 'leak'):
            ev.append(dict(e='fds', leak=int(f[1])))
        elif f[0] == 'nopty':
            return None
        else:
            ev.append(dict(e='X', what=l))
    return ev


def spec_scenarios(ctx, rng):
    num = 400 if ctx.quick else 8000
    scripts = set()
    for nops, mf in ((4, 2), (7, 4)):
        r = tlc(ctx, 'File', dcfg('Emit', Gen='TRUE', NOps=nops, MaxFrames=mf), args=['-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(rng.randrange(1 << 30))], workers=1, heap='2g')
        scripts |= {m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)}
    out = []
    for g in sorted(scripts):
        (kind, bad, lim, cf, nus, end, stop), *ops = json.loads(g.replace('\\"', '"'))['h']
        s = dict(kind=kind, ct=rng.choice([0, 1]))
        sizes, o = [], []
        for op, n in ops:
            if op == 'w':
                z = [rng.choice([1, 2, 7, 200, 4096, 5000]) for _ in range(n)]
                o.append('w' + '+'.join(map(str, z)))
                sizes += z
            else:
                o.append(op)
        s['ops'] = ','.join(o)
        if bad:
            s.update(path=rng.choice(['/nonexistent/x', 'empty', 'long', '/dev/null/x']), _bad=True)
        elif kind == 'w':
            s['path'] = 'file'
            ends = [len(control(2, s['ct']))]
            for z in sizes:
                ends.append(ends[-1] + 4 + z)
            ends.append(ends[-1] + 12)
            full = lim // 2
            n = (ends[full - 1] if full <= len(ends) and full else ends[-1] if full else 0) + (lim % 2) * rng.randrange(1, 5)
            if cf:
                s['ck'] = 'c' + (rng.choice('wW') + str(n) if rng.random() < .5 else '')
            elif rng.random() < .3:
                s['ck'] = rng.choice('wW') + str(n)
            elif rng.random() < .8:
                s['lim'] = n
            if 'ck' not in s and rng.random() < .5:
                s['pre'] = rng.choice([1, 30, 100, 20000])
        else:
            s['path'] = 'file'
            c = s['_c'] = Content(ctx, s['ct'], [rng.choice([1, 3, 100, 5000]) for _ in range(max(0, nus - 1 - stop))], stop)
            if nus == 0:
                c = s['_c'] = Content(ctx, s['ct'], [], cut=rng.randrange(len(control(2, s['ct']))))
            elif not stop and rng.random() < .5:
                c = s['_c'] = Content(ctx, s['ct'], [3] * nus, cut=rng.randrange(c.ends[nus - 1], c.ends[nus - 1] + 7)) if nus > 1 else c
            s['in'] = c.path
            if end == 'err':
                k = len(c.bytes)
                s['ck'] = 'r%d' % k + rng.choice(['', 'm1', 'm3', 'm4096'])
        out.append(s)
    if not out:
        raise CheckError('the specification generated no scenarios')
    ctx.extra['spec_generated_scenarios'] = len(out)
    return out


def scenarios(ctx, rng):
    q = ctx.quick
    out = spec_scenarios(ctx, rng)
    step = 3 if q else 1
    for ct in (0, 1):
        hs = len(control(2, ct))
        total = hs + 7 + 5 + 13 + 12
        w = 'o,w3+1,w9,c,o,w4,c'
        for k in range(rng.randrange(step), total + 4, step):
            out.append(dict(kind='w', ct=ct, path='file', ops=w, lim=k))
            out.append(dict(kind='w', ct=ct, path='file', ops=w.replace('o,', '', 1), ck='w%d' % k))
            out.append(dict(kind='w', ct=ct, path='-', std='file', ops='o,w3+1,w9,c', lim=k))
            out.append(dict(kind='w', ct=ct, path='file', ops='w3+1,w9,d', ck='W%d' % k))
        # crossing stdio buffers
        for base in (4096, 8192, 65536, 1 << 20) if not q else (4096, 1 << 16):
            for d in (-40, -13, -12, -1, 0, 1, 13):
                n = base + d
                for f in ('lim=%d' % (n + rng.randrange(-5, 40)), 'lim=%d' % (base), 'ck=W%d' % base, 'ck=w%d' % (base - 1), 'ck=c', ''):
                    s = dict(kind='w', ct=ct, path='file', ops='o,w%d,w5,w7+%d+2,c' % (n - hs - 4 if n > hs + 4 else n, rng.choice([1, 100, 4096])))
                    if f:
                        s.update([f.split('=')])
                        if 'lim' in s:
                            s['lim'] = int(s['lim'])
                    else:
                        s['pre'] = 3 * n
                    out.append(s)
        for pre in (0, 1, 11, 12, 24, 47, 48, 100, 5000):
            out.append(dict(kind='w', ct=ct, path='file', ops='o,w3,c,o,c,o,w2+2,w9,c', pre=pre))
            out.append(dict(kind='w', ct=ct, path='file', ops='w3,c,w3,o,w3000,d', pre=pre))
        out.append(dict(kind='w', ct=ct, path='/dev/full', ops='o,w3,c,o,w100000,c,o,c'))
        out.append(dict(kind='w', ct=ct, path='/dev/full', ops='w3,c,o,w5000,w5000,c,o,d'))
        out.append(dict(kind='w', ct=ct, path='file', ops='o,w3,c,o,c,o', ck='c'))
        for bad in ('/nonexistent/x', 'empty', 'long', '/dev/null/x', '/proc/self', '/'):
            out.append(dict(kind='w', ct=ct, path=bad, ops='o,w3,o,c,w3,d', _bad=True))
            rd = dict(kind='r', ct=ct, path=bad, ops='o,r,o,c,r,d')
            out.append(dict(rd, _err=True) if bad in ('/', '/proc/self') else dict(rd, _bad=True))
        out.append(dict(kind='r', ct=ct, path='/proc/self/mem', ops='o,r,c', _err=True))
        for n in (300, 1000):
            out.append(dict(kind='w', ct=ct, path='file', ops='o,w' + '+'.join(str(1 + i % 9) for i in range(n)) + ',w1,c', pre=100000))
        # any name
        for name in (b'-x', b'--', b'-.', b'--help', b'-r', b'stdin', b'stdout', b'a%sb%n', b'~', b'$HOME', b'*', b'a b', b' -', b'- ', b'-\n', b'.x', b'\\', b'a:b', b'x|y', b'\xc3\xa9\xff', b'\x01',
                     b'n' * 255, b'x' * 127, b'y' * 200, b'-' * 30, b'&', b'#', b'http:x', b'|cat', b'>f', b'a,b=c'):
            out.append(dict(kind='w', ct=ct, path='file', name=name.hex(), ops='o,w3+1,w9,c,o,w4,c', pre=rng.choice([0, 7, 300])))
            c = Content(ctx, ct, [3, 9, 100])
            out.append(dict(kind='r', ct=ct, path='file', name=name.hex(), ops='o,R,c,o,r,d', _c=c, **{'in': c.path}))
        # readers: every cut, by end of file and by error
        for lens, stop in (([3, 1, 9], True), ([3, 1, 9], False), ([], True)):
            full = Content(ctx, ct, lens, stop)
            for k in range(len(full.bytes) + 1):
                if lens == [3, 1, 9] and not stop and k < full.ends[-2]:
                    continue
                c = Content(ctx, ct, lens, stop, cut=k)
                ops = rng.choice(['o,R,r,c,o,R,c', 'R,c', 'o,r,c,o,R,c,o,R,d', 'r,r,c,o,R'])
                out.append(dict(kind='r', ct=ct, path='file', ops=ops, _c=c, **{'in': c.path}))
                out.append(dict(kind='r', ct=ct, path='file', ops=ops, _c=full, ck='r%d' % k + rng.choice(['', 'm1', 'm5']), **{'in': full.path}))
                out.append(dict(kind='r', ct=ct, path='-', std='pty', ops=rng.choice(['o,R,c', 'R,c', 'o,R,d']), _c=c, **{'in': c.path}))
                out.append(dict(kind='r', ct=ct, path='-', std=rng.choice(['pipe', 'file']), chunk=rng.choice([0, 1, 2, 7]), ops=rng.choice(['o,R,c', 'R,c', 'o,R,d']), _c=c, **{'in': c.path}))
        for n in (4083, 4084, 4095, 4096, 4097, 65535, 65536, 1048575, 1048576):
            c = Content(ctx, ct, [n, 3, n, 4096])
            for kw in (dict(path='file'), dict(path='-', std='pipe'), dict(path='-', std='pipe', chunk=rng.choice([1000, 4095, 4097])),
                       dict(path='file', ck='r%d' % rng.randrange(len(c.bytes))), dict(path='file', ck='r%dm%d' % (rng.randrange(len(c.bytes)), rng.choice([100, 4000])))):
                out.append(dict(kind='r', ct=ct, ops='o,R,c' if kw['path'] == '-' else 'o,r,c,o,R,c', _c=c, **{'in': c.path}, **kw))
    for _ in range(400 if q else 15000):
        ct = rng.choice([0, 1])
        if rng.random() < .6:
            ops, total = [], 0
            for _ in range(rng.choice([2, 4, 8, 15])):
                r = rng.random()
                if r < .65:
                    z = [rng.choice([1, 2, 3, 5, 20, 400, 4000]) for _ in range(rng.choice([1, 1, 2, 3, 12]))]
                    total += sum(z) + 4 * len(z)
                    ops.append('w' + '+'.join(map(str, z)))
                else:
                    ops.append('o' if r < .8 else 'c')
            if rng.random() < .6:
                ops.insert(0, 'o')
            s = dict(kind='w', ct=ct, path='file', ops=','.join(ops + [rng.choice('cd')]))
            r = rng.random()
            lim = rng.randrange(total + 60)
            if r < .4:
                s['lim'] = lim
            elif r < .6:
                s['ck'] = rng.choice('wW') + str(lim) + rng.choice(['', 'c'])
            else:
                s['pre'] = rng.randrange(2 * total + 100)
        else:
            c = Content(ctx, ct, [rng.choice([1, 2, 3, 5, 20, 400, 4090, 10000]) for _ in range(rng.choice([0, 1, 3, 10]))], rng.random() < .8)
            if rng.random() < .5:
                c.bytes = c.bytes[:rng.randrange(len(c.bytes) + 1)]
                with open(c.path, 'wb') as f:
                    f.write(c.bytes)
            ops = ['r' if rng.random() < .6 else rng.choice('oc') for _ in range(rng.choice([2, 5, 12]))]
            s = dict(kind='r', ct=ct, path='file', ops=','.join((['o'] if rng.random() < .7 else []) + ops + rng.choice([['R', 'c'], ['d'], ['c', 'o', 'R']])), _c=c, **{'in': c.path})
            if rng.random() < .4:
                s['ck'] = 'r%d' % rng.randrange(len(c.bytes) + 1) + rng.choice(['', 'm1', 'm7'])
        out.append(s)
    return out


def run_lines(ctx, exe, scen):
    d = ctx.path('run-%d' % random.getrandbits(50), '')
    with open(d + 'sc', 'w') as f:
        f.writelines(line(i, s) for i, s in scen)
    p = subprocess.run([exe, d + 'sc', d + 'log', d], capture_output=True, text=True, errors='replace', timeout=800, env=dict(os.environ, **ASAN_ENV))
    hist, cur, buf, bad = {}, None, [], None
    with open(d + 'log') as f:
        for l in f:
            l = l.rstrip('\n')
            if l.startswith('case '):
                cur, buf = int(l[5:]), []
            elif l.startswith('end '):
                hist[cur] = tuple(buf)
                if l != 'end 0' and bad is None:
                    bad = (cur, l)
                cur = None
            else:
                buf.append(l)
    if p.returncode or len(hist) != len(scen):
        raise CheckError('the driver failed (%d of %d runs): %s' % (len(hist), len(scen), p.stderr[-2000:]))
    shutil.rmtree(d, True)
    return hist, bad, p.stderr[-3000:]


def check(ctx):
    muts = MUT if not ctx.quick else ctx.rng.sample(MUT, 6)
    check_design(ctx, 'File', dcfg(), [(m, dcfg(mut=m)) for m in muts])
    check_design(ctx, 'File', dcfg(NOps=6 if ctx.quick else 8, MaxFrames=4))
    exe = build(ctx, 'file', [HARNESS + '/file_driver.c'] + lib_sources(), ASAN + ['-U_FORTIFY_SOURCE', '-I' + REPO + '/fstrm'],
                ASAN[:1] + ['-fsanitize=undefined', '-Wl,--wrap=fopen,--wrap=fopen64'])
    scen = list(enumerate(scenarios(ctx, ctx.rng)))
    groups = [scen[k::2 * NCPU] for k in range(2 * NCPU)]
    traces, seen, skipped = [], set(), 0
    for g, (h, bad, err) in zip(groups, run_parallel(lambda g: run_lines(ctx, exe, g), groups)):
        if bad is not None:
            c = [x for x in g if x[0] == bad[0]]
            again = run_lines(ctx, exe, c)
            if again[1] is None:
                raise CheckError('a run failed once: %s %s' % (c, err))
            ctx.violate('the library crashed or hung (%s)' % bad[1], {'case.txt': line(*c[0]), 'stderr.txt': again[2]})
            return
        for i, s in g:
            key = (h[i], json.dumps(cfg_event(s)))
            if key in seen:
                continue
            seen.add(key)
            ev = events(h[i], s)
            if ev is None:
                skipped += 1
            else:
                traces.append(dict(id=i, ev=ev))
    ctx.extra.update(runs=len(scen), distinct_histories=len(seen), events=sum(len(t['ev']) for t in traces), skipped=skipped,
                     failed_calls=sum(e['e'] == 'ret' and e['res'] == 'fail' for t in traces for e in t['ev']),
                     complete_files=sum(e['e'] == 'file' and e['us'][-1:] == [STOP] for t in traces for e in t['ev']))
    ctx.sample(dict(run=line(*scen[traces[0]['id']]), ev=traces[0]['ev'][:30]))
    bad = validate(ctx, 'FileTrace', traces)
    if bad:
        t, l, out = bad
        ctx.violate('rules broken at event %d: %s' % (l, t['ev'][l - 1]),
                    {'scenario.txt': line(*scen[t['id']]), 'trace.json': t, 'tlc.txt': out[-5000:]})
