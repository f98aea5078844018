"""O01: option setters and the effect of the values on the objects created with them, judged by OptRules."""
from simbuild import *
import iodrv
from iothrcheck import line, run_lines

MUT = 'clamp notpow2 offbyone zero nomodel clobber field rwrap rclobber ctlen ctkeep alias'.split()
U32 = 1 << 32
DEF = dict(bh=8192, ft=1, iq=512, nq=1, oq=64, m=0, nt=32, ri=5)
EDGE = dict(bh=[0, 1, 1023, 1024, 1025, 8192, 65535, 65536, 65537, U32 - 1, 1 << 31], ft=[0, 1, 2, 599, 600, 601, 65537, U32 - 1, 1 << 31],
            iq=[0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 64, 96, 100, 128, 256, 511, 512, 513, 1000, 1024, 2048, 4096, 8192, 16383, 16384, 16385, 24576, 32768, 65536, 1 << 31, U32 - 1],
            nq=[0, 1, 2, 3, 100, 70000], oq=[0, 1, 2, 3, 64, 1023, 1024, 1025, 65536, 1 << 31, U32 - 1], m=[0, 1, 2, 3, 255, 256, 1 << 31, U32 - 1],
            nt=[0, 1, 2, 32, 511, 16384, U32 - 1, 1 << 31], ri=[0, 1, 2, 599, 600, 601, 65537, U32 - 1, 1 << 31])


def ok(n, v):
    """Only to shape the probe that follows; the verdict is the specification's."""
    return dict(bh=1024 <= v <= 65536, ft=1 <= v <= 600, iq=2 <= v <= 16384 and v & (v - 1) == 0, nq=v >= 1, oq=2 <= v <= 1024, m=v in (0, 1), nt=v >= 1, ri=1 <= v <= 600)[n]


def quad(v):
    return [v >> s & 0xffff for s in (48, 32, 16, 0)]


def dcfg(what='NoBad', mut='none', **k):
    d = dict(dict(NOps=2, Gen='FALSE'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS %s Mutation = "%s"\n' % (what, ' '.join('%s = %s' % x for x in d.items()), mut)


# ---------------------------------------------------------------- I/O thread options
def probe(rng, mode, sets):
    """A scenario for the I/O thread driver that shows the values in effect."""
    e = dict(DEF)
    for n, v in sets:
        if ok(n, v):
            e[n] = v
    s = dict(id=0, t0=rng.choice([0, 1000, 5999, 7300]), roff=rng.choice([0, 3, 1700000000]), bi=0, ct=rng.choice([0, 1]), conns='O', seed=rng.randrange(1 << 60), pa=0, ps=0, spur=0, _mode=mode)
    if sets or rng.random() < .5:
        s['set'] = '/'.join('%s:%d' % x for x in sets) or 'nq:1'
    else:
        s['def'] = 1
        s['nq'] = s['iq'] = s['oq'] = 1
    if mode in ('burst', 'fill'):
        k = e['iq'] - 1
        sz = rng.choice([1, 3, 40, 300] if e['iq'] > 64 else [1, 3, 100, 1000, 3000])
        sizes = [sz if rng.random() < .8 else rng.choice([1, 2, 700]) for _ in range(k)] if mode == 'burst' else [2] * k
        s.update(conns='OG1', prod='x0.' + ''.join('s%d.' % z for z in sizes) + 's1.s2.s3', main='W.g.z%d' % (3000 * e['ft'] if e['ft'] < 600 else 0))
    elif mode == 'lone':
        s.update(prod='x0.' + '.'.join('z%d.s%d' % (rng.choice([10, 300 * e['ft'], 1000 * e['ft'] - 1, 2000 * e['ft'] + 5, 4000 * e['ft']]), rng.choice([1, 5, 90])) for _ in range(5)), main='W.z%d' % (2500 * e['ft']))
    elif mode == 'retry':
        s.update(conns='F,F%s,F,F,O' % rng.choice(['', 'd700', 'd%d' % (1000 * e['ri'] + 500)]), prod='x0.s3', main='z%d' % (5000 * e['ri'] + 6000 * e['ft']))
    elif mode == 'notify':
        s.update(prod='x0.' + '.'.join(['s2.z10'] * (2 * e['nt'] + 3)), main='W')
    elif mode == 'race':
        s.update(prod='/'.join('x0' + '.s%d' % rng.choice([1, 5]) * rng.choice([5, 20, 60]) for _ in range(rng.choice([2, 3, 4]))), main='W', pa=rng.choice([.05, .2, .4]), ps=rng.choice([.1, .5]))
    elif mode == 'queues':
        n = e['nq']
        idx = sorted({0, 1, n - 1, n, n + 1, 2 * n, 1 << 31, U32 - 1, U32, U32 + 1, (1 << 62) + 1} | {rng.randrange(n + 3)})
        s.update(main='.'.join('x%d' % i for i in idx) + '.q' * (n + 3 if n < 50 else 2))
    return s


def events(lines, s):
    ev, k, sub = [], 0, {}
    m = s['_mode']
    ev.append(dict(e='mode', m=m))
    filled = 0
    nd = 0
    for l in lines:
        f = l.split()
        c, t, a = f[0], int(f[1]), f[2:]
        if c == 'os':
            ev.append(dict(e='set', name=a[0], v=quad(int(a[1])), ok=a[2] == '0'))
        elif c == 'init':
            ev.append(dict(e='init', ok=a[0] == '1'))
        elif c == 'gx' and m == 'queues':
            if int(a[0]) < 100000 or s.get('set') and 'def' not in s:
                ev.append(dict(e='gx', v=quad(int(a[0])), some=a[1] != '0'))
        elif c == 'gr' and m == 'queues':
            ev.append(dict(e='gq', some=a[0] != '0'))
        elif c == 'sc':
            sub[a[0]] = (int(a[1]), int(a[2]), t)
        elif c == 'sr':
            if m == 'fill':
                if a[1] == '0':
                    filled += 1
                elif filled >= 0:
                    ev.append(dict(e='fill', n=filled, again=a[1] == '2'))
                    filled = -1
                continue
            q, n, t0 = sub[a[0]]
            ev.append(dict(e='sc', q=q, len=n, t=t0))
            ev.append(dict(e='sr', ok=a[1] == '0', again=a[1] == '2'))
        elif c == 'to' or c == 'te':
            ev.append(dict(e=c, t=t))
        elif c == 'wv':
            ev.append(dict(e='wv', n=int(a[0]), bytes=int(a[1])))
        elif c == 'd':
            nd += 1
            if m == 'lone':
                ev.append(dict(e='d', k=nd, t=t))
        elif c == 'dr':
            ev.append(dict(e='dr', n=nd))
        elif c in ('uaf', 'X', 'wf'):
            ev.append(dict(e='X', what=l))
    if m == 'race':      # racing calls: what was accepted counts, not when it was written
        ev = [e for e in ev if e['e'] not in ('wv',)]
    return ev


def rand_sets(rng, fixed=None, n=None):
    fixed = dict(fixed or {})
    sets = []
    for name, v in fixed.items():
        seq = [v]
        good = [x for x in EDGE[name] if ok(name, x)]
        badv = [x for x in EDGE[name] if not ok(name, x)]
        if rng.random() < .5:
            seq.insert(0, rng.choice(good))
        for _ in range(rng.choice([0, 1, 2, 3])):
            seq.append(rng.choice(badv))
        if rng.random() < .3:
            seq.insert(0, rng.choice(badv))
        sets.append([(name, x) for x in seq])
    others = [k for k in EDGE if k not in fixed]
    for name in rng.sample(others, rng.randrange(len(others))):
        badv = [x for x in EDGE[name] if not ok(name, x)]
        sets.append([(name, rng.choice(badv)) for _ in range(rng.choice([1, 2]))])
    out = []      # random interleaving
    while sets:
        s = rng.choice(sets)
        out.append(s.pop(0))
        if not s:
            sets.remove(s)
    return out


def io_scenarios(ctx, rng):
    q = ctx.quick
    out = []
    # every boundary of every setter, as the last call of a series
    for name in EDGE:
        for v in EDGE[name]:
            if name == 'nq' and v > 100:
                continue
            out.append(probe(rng, 'queues', [(name, v)]))
            out.append(probe(rng, 'queues', [('nq', 3), (name, [x for x in EDGE[name] if ok(name, x)][0]), (name, v)] + ([('nq', 3)] if name == 'nq' else [])))
    for n in (1, 2, 3, 31, 33, 64, 100):
        out.append(probe(rng, 'queues', rand_sets(rng, dict(nq=n, iq=2))))
    for i in range(1 if q else 6):
        for iq in (2, 4, 8, 16, 32, 64, 128, 256, 512) + (() if q else (1024, 2048)):
            out.append(probe(rng, 'burst', rand_sets(rng, dict(iq=iq))))
            out.append(probe(rng, 'burst', rand_sets(rng, dict(iq=iq, oq=rng.choice([2, 3, 7, 64, 65, 500, 1024]), bh=rng.choice([1024, 1025, 2000, 8192, 8193, 65535, 65536]), m=rng.choice([0, 1])))))
        for iq in (1024, 2048, 4096, 8192, 16384):
            out.append(probe(rng, 'fill', rand_sets(rng, dict(iq=iq, m=rng.choice([0, 1])))))
        for oq in (2, 3, 4, 5, 63, 64, 65, 500):
            out.append(probe(rng, 'burst', rand_sets(rng, dict(iq=512, oq=oq, bh=65536))))
        for oq in (512, 1023, 1024) if not q else (1024,):
            out.append(probe(rng, 'burst', rand_sets(rng, dict(iq=2048, oq=oq, bh=65536))))
        for bh in (1024, 1025, 2047, 8191, 8192, 8193, 30000, 65535, 65536):
            out.append(probe(rng, 'burst', rand_sets(rng, dict(iq=512, oq=1024, bh=bh))))
        for ft in (1, 2, 3, 10, 59, 60, 599, 600):
            out.append(probe(rng, 'lone', rand_sets(rng, dict(ft=ft))))
        for ri in (1, 2, 4, 5, 6, 59, 599, 600):
            out.append(probe(rng, 'retry', rand_sets(rng, dict(ri=ri, ft=rng.choice([1, 2, 5])))))
        for nt in (1, 2, 3, 5, 31, 32, 33, 62):
            out.append(probe(rng, 'notify', rand_sets(rng, dict(nt=nt, iq=64, oq=2, ft=600, m=rng.choice([0, 1])))))
        for _ in range(40 if q else 300):
            out.append(probe(rng, 'race', rand_sets(rng, dict(m=1, iq=256, ft=1))))
    for mode in ('burst', 'lone', 'retry', 'queues'):
        for _ in range(2):
            out.append(probe(rng, mode, []))
    for _ in range(150 if q else 6000):
        mode = rng.choice(['burst', 'burst', 'lone', 'retry', 'notify', 'queues', 'race'])
        fx = {}
        if mode == 'burst':
            fx = dict(iq=2 ** rng.randrange(1, 9), oq=rng.choice([2, 3, rng.randrange(2, 100)]), bh=rng.randrange(1024, 5000))
        elif mode == 'lone':
            fx = dict(ft=rng.randrange(1, 601))
        elif mode == 'retry':
            fx = dict(ri=rng.randrange(1, 601), ft=rng.randrange(1, 20))
        elif mode == 'notify':
            fx = dict(iq=rng.choice([64, 128, 512]), oq=2, ft=600)
            fx['nt'] = rng.randrange(1, fx['iq'] - 2) if rng.random() < .5 else rng.randrange(1, 20)
        elif mode == 'race':
            fx = dict(m=1, iq=256, ft=1)
        else:
            fx = dict(nq=rng.randrange(1, 40), iq=rng.choice([2, 4]))
        out.append(probe(rng, mode, rand_sets(rng, fx)))
    return out


# ---------------------------------------------------------------- reader and writer options
RMAX = [0, 1, 511, 512, 513, 1000, 65535, 65536, 1048575, 1048576, 1048577, 5000000, 1 << 31, U32 - 2, U32 - 1, U32, U32 + 512, U32 + 5000, (1 << 40) + 600, (1 << 64) - 1, 1 << 63]


def okmax(v):
    return 512 <= v <= U32 - 2


class Case:
    def __init__(self, role, sets, wire, ops):
        self.role, self.sets, self.wire, self.ops = role, sets, wire, ops

    def text(self, i):
        return '\n'.join(['case %d' % i, 'role ' + self.role, 'bi %d' % (self.role == 'w')]
                         + ['max %d' % v if k == 'max' else 'ct ' + iodrv.hx(v) for k, v in self.sets]
                         + ['conn ok ok stop -1 fail ' + iodrv.hx(self.wire)] + ['op ' + o for o in self.ops] + ['run', ''])


def ctl(ty, cts=()):
    p = iodrv.ctl_payload(ty, cts)
    return iodrv.w32(0) + iodrv.w32(len(p)) + p


def rw_cases(ctx, rng):
    out = []

    def ct(n):
        return bytes(rng.randrange(256) for _ in range(n))
    # maximum frame sizes
    for v in RMAX * (1 if ctx.quick else 4):
        for pre in ([], [600], [2000000], [rng.choice(RMAX)]):
            sets = [('max', x) for x in pre + [v]] + ([('max', rng.choice([x for x in RMAX if not okmax(x)]))] if rng.random() < .3 else [])
            e = 1048576
            for _, x in sets:
                e = x if okmax(x) else e
            for n in {1, min(e, 3000000) - 1, min(e, 3000000), min(e, 3000000) + 1, rng.choice([512, 1048577])}:
                out.append(Case('r', sets, ctl(2) + iodrv.w32(n) + bytes(n) + ctl(3), ['open', 'read']))
                out[-1].n = n
    # content types
    lens = [0, 1, 2, 255, 256, 257, 258, 300, 512, 65536 + 5]
    for k in range(150 if ctx.quick else 2000):
        cts, total = [], 4
        many = k % 5 == 0
        for _ in range(rng.choice([8, 9, 16, 17, 20, 32, 33, 40, 48]) if many else rng.choice([0, 1, 2, 3, 4])):
            c = ct(rng.choice([1, 1, 2, 2, 2, 3, 300] if many else lens))
            if c in cts or (len(c) <= 256 and total + 8 + len(c) > 512):
                continue
            if len(c) <= 256:
                total += 8 + len(c)
            cts.append(c)
        sets = [('ct', c) for c in cts]
        good = [c for c in cts if len(c) <= 256]
        acc = ctl(1, good[:1])
        out.append(Case('w', sets, acc + ctl(5), ['open']))
        cand = good + [ct(3), b''] + [c[:256] for c in cts if len(c) > 256] + [c[:-1] for c in good if c] + [c[:-1] + bytes([c[-1] ^ 1]) for c in good if c] + [bytes([c[0] ^ 1]) + c[1:] for c in good if c]
        c = rng.choice(good[-3:] if many and rng.random() < .6 else cand)
        out.append(Case('r', sets, ctl(2, [c]) + ctl(3), ['open']))
        out[-1].c = c
    return out


def rw_events(case, raw):
    ev, out, fin = [], b'', False
    sets = iter(case.sets)
    for l in raw:
        f = l.split(' ')
        if f[0] == 'A' and f[1] == 'max':
            k, v = next(sets)
            ev.append(dict(e='rset', v=quad(v), ok=f[2] == 'ok'))
        elif f[0] == 'A':
            k, v = next(sets)
            ev.append(dict(e='ct', n=len(v), c=v.hex(), w=f[2] == 'ok', r=f[3] == 'ok'))
        elif f[0] == 'C':
            op = f[1]
        elif f[0] == 'W':
            out += bytes.fromhex(f[3].replace('-', ''))
        elif f[0] == 'R':
            if op == 'open' and case.role == 'r' and hasattr(case, 'c'):
                ev.append(dict(e='start', c=case.c.hex(), ok=f[1] == 'ok'))
            elif op == 'open' and case.role == 'w':
                n = int.from_bytes(out[4:8], 'big')
                p, cs = out[12:8 + n], []
                if out[:4] != bytes(4) or out[8:12] != iodrv.w32(4):
                    ev.append(dict(e='X', what='no READY'))
                while p:
                    k = int.from_bytes(p[4:8], 'big')
                    cs.append(p[8:8 + k].hex())
                    p = p[8 + k:]
                ev.append(dict(e='ready', cs=cs))
                ev.append(dict(e='init', ok=f[1] == 'ok'))
            elif op == 'read':
                ev.append(dict(e='frame', v=quad(case.n), ok=f[1] == 'ok' and len(f) > 2 and len(f[2]) == 2 * case.n))
    return ev


def spec_sequences(ctx, rng):
    """Setter sequences and probes from the design."""
    r = tlc(ctx, 'Opt', dcfg('Emit', Gen='TRUE', NOps=6), args=['-simulate', 'num=%d' % (300 if ctx.quick else 5000), '-depth', '20', '-seed', str(rng.randrange(1 << 30))], workers=1, heap='2g')
    io, rw = [], []
    val = lambda v: v[0] << 48 | v[1] << 32 | v[2] << 16 | v[3]
    n = 0
    for g in sorted({m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)}):
        *steps, (_, kind) = json.loads(g.replace('\\"', '"'))['h']
        n += 1
        if kind in ('reader', 'writer'):
            sets, e = [], 1048576
            for k, v in steps:
                if k == 'max':
                    sets.append(('max', val(v)))
                    e = val(v) if okmax(val(v)) else e
                elif k == 'ct' and (v > 256 or kind == 'reader' or v + 8 + sum(8 + len(c) for t, c in sets if t == 'ct' and len(c) <= 256) < 508):
                    sets.append(('ct', bytes(rng.randrange(256) for _ in range(v))))
            good = [v for k, v in sets if k == 'ct' and len(v) <= 256]
            if kind == 'writer':
                rw.append(Case('w', sets, ctl(1, good[:1]) + ctl(5), ['open']))
            else:
                k = rng.choice([1, min(e, 3000000), min(e, 3000000) + 1])
                rw.append(Case('r', sets, ctl(2, [good[-1]] if good else []) + iodrv.w32(k) + bytes(k) + ctl(3), ['open', 'read']))
                rw[-1].n = k
        else:
            sets = [(k, val(v)) for k, v in steps if k in EDGE]
            eff = dict(DEF)
            for k, v in sets:
                eff[k] = v if ok(k, v) else eff[k]
            if kind == 'burst' and eff['iq'] > 512:
                kind = 'fill'
            if kind in ('retry', 'lone') and eff['ft'] > 20 and eff['ri'] > 20 and kind == 'retry':
                kind = 'queues'
            if sets:
                io.append(probe(rng, kind, sets))
    if not n:
        raise CheckError('the specification generated no scenarios')
    ctx.extra['spec_generated_scenarios'] = n
    return io, rw


def check(ctx):
    rng = ctx.rng
    muts = MUT if not ctx.quick else rng.sample(MUT, 5)
    check_design(ctx, 'Opt', dcfg(NOps=2 if ctx.quick else 3), [(m, dcfg(mut=m)) for m in muts])
    io, rw = spec_sequences(ctx, rng)
    io += io_scenarios(ctx, rng)
    rw += rw_cases(ctx, rng)
    for i, s in enumerate(io):
        s['id'] = i
    exe = build_sim(ctx, 'iothr', [HARNESS + '/iothr_driver.c'], lib_sources(), ['fstrm_writer_writev'])
    lines = lambda s: line({k: v for k, v in s.items() if k[0] != '_'})
    order = sorted(range(len(io)), key=lambda i: -len(io[i].get('prod', '')))
    groups = [[io[i] for i in order[k::4 * NCPU]] for k in range(4 * NCPU)]
    pub = lambda g: [{k: v for k, v in s.items() if k[0] != '_'} for s in g]
    traces = []
    for g, (h, crash, err) in zip(groups, run_parallel(lambda g: run_lines(exe, pub(g)), groups)):
        if crash is not None:
            c = [s for s in g if s['id'] == crash]
            if crash < 0 or run_lines(exe, pub(c))[1] is None:
                raise CheckError('driver failed: %s %s' % (c, err))
            ctx.violate('the library crashed', {'case.txt': lines(c[0]), 'stderr.txt': err})
            return
        traces += [dict(id=s['id'], ev=events(h[s['id']], s)) for s in g]
    drv = iodrv.build_driver(ctx)
    parts = [rw[k::2 * NCPU] for k in range(2 * NCPU)]
    for p, (raws, crashes) in zip(parts, run_parallel(lambda p: iodrv.run_scripts(drv, p), parts)):
        if crashes:
            k, _, err, _ = crashes[0]
            if iodrv.run_scripts(drv, [p[k]])[1]:
                ctx.violate('the library crashed', {'script.txt': p[k].text(0)[:100000], 'stderr.txt': err})
                return
            raise CheckError('driver failed: ' + err)
        traces += [dict(id=-1, sets=[[k, v if k == 'max' else v.hex()[:600]] for k, v in c.sets], ev=rw_events(c, r)) for c, r in zip(p, raws)]
    ctx.extra.update(runs=len(io), reader_writer_cases=len(rw), events=sum(len(t['ev']) for t in traces),
                     setter_calls=sum(e['e'] in ('set', 'rset', 'ct') for t in traces for e in t['ev']),
                     refused=sum(e['e'] in ('set', 'rset') and not e['ok'] for t in traces for e in t['ev']),
                     probes={m: sum(s['_mode'] == m for s in io) for m in ('burst', 'fill', 'lone', 'retry', 'notify', 'race', 'queues')})
    ctx.sample(dict(run=lines(io[0])[:500], ev=traces[0]['ev'][:30]))
    bad = validate(ctx, 'OptTrace', traces)
    if bad:
        t, l, out = bad
        ctx.violate('rules broken at event %d: %s' % (l, t['ev'][l - 1]),
                    {'scenario.txt': lines(io[t['id']]) if t['id'] >= 0 else json.dumps(t['sets']), 'trace.json': t, 'tlc.txt': out[-5000:]})
