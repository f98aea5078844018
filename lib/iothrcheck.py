"""I01-I07: the I/O thread under simulated schedules and transport faults, judged by IothrRules."""
import itertools, subprocess
from simbuild import *

SIZES = [1, 2, 3, 5, 8, 20, 60, 100]
# payloads as long as a data frame can be (the bytes are not there: nobody has to look at them)
HUGE = [(1 << 32) - 2, (1 << 32) - 3, (1 << 32) - 4, (1 << 32) - 5, (1 << 32) - 8, (1 << 32) - 1000, (1 << 31) + 1, 1 << 31, (1 << 31) - 1, (1 << 31) - 4, (1 << 31) - 5, 3 << 30, 1 << 24]


def line(s):
    return ' '.join('%s=%s' % kv for kv in s.items()) + '\n'


def run_lines(exe, scen):
    """Returns {id: event lines}, crashed id or None, stderr."""
    p = subprocess.run([exe], input=''.join(line(s) for s in scen), capture_output=True, text=True, errors='replace', timeout=800)
    hist, cur, buf = {}, None, []
    for l in p.stdout.split('\n'):
        if l.startswith('case '):
            cur, buf = int(l[5:]), []
        elif l.startswith('end '):
            hist[cur] = tuple(buf)
            cur = None
        elif cur is not None:
            buf.append(l)
    return hist, (cur if cur is not None else -1) if p.returncode or cur is not None else None, p.stderr[-3000:]


def events(lines):
    ev = []
    for l in lines:
        f = l.split()
        k, t, a = f[0], int(f[1]), f[2:]
        d = dict(e=k, t=t)
        if k == 'init':
            d['ok'] = a[0] == '1'
        elif k == 'gx':
            d.update(idx=int(a[0]), h=int(a[1]))
        elif k == 'gr':
            d['h'] = int(a[0])
        elif k == 'sc':
            d.update(id=int(a[0]), q=int(a[1]), len=int(a[2]), kind=int(a[3]))
        elif k == 'sr':
            d.update(id=int(a[0]), res=int(a[1]))
        elif k == 'fr':
            d.update(id=int(a[0]), ok=a[1] == '1')
        elif k == 'te':
            d.update(ok=a[0] == '1', fin=a[1] == '1')
        elif k == 'c':
            d['type'] = int(a[0])
        elif k == 'd':
            d['id'] = int(a[0])
        elif k == 'wb':
            d['ids'] = [int(x) for x in a]
        elif k == 'wv':
            d.update(n=int(a[0]), bytes=int(a[1]))
        elif k == 'dr':
            d.update(alive=a[0] != '0', leak=a[1] != '0')
        elif k == 'X':
            d['what'] = ' '.join(a)
        ev.append(d)
    return ev


def cfg(s):
    if s.get('def'):
        return dict(oq=64, bh=8192, ft=1, iq=512, nq=1, ri=5, bi=bool(s.get('bi')), t0=s['t0'])
    return dict(oq=min(s['oq'], 1024), bh=s['bh'], ft=s['ft'], iq=s['iq'], nq=s['nq'], ri=s['ri'], bi=bool(s.get('bi')), t0=s['t0'])


# ---------------------------------------------------------------- scenarios
def rand_conn(rng, bi, good=.45):
    if rng.random() < .2:
        return 'F' + ('d%d' % rng.choice([100, 900, 1500, 4000]) if rng.random() < .4 else '')
    c = 'O'
    if rng.random() < .2:
        c += 'd%d' % rng.choice([1, 500, 2500])
    if rng.random() > good:
        c += 'w%d' % rng.choice([0, 5, 11, 12, 13, 20, 24, 30, 40, 60, 90, 150, 300, 1000, rng.randrange(2000)])
    if rng.random() < .15:
        c += 's%d' % rng.choice([1, 100, 1200])
    if bi and rng.random() < .2:
        c += 'A%d' % rng.choice([1, 2, 3])
    if bi and rng.random() < .2:
        c += 'n1'
    if bi and rng.random() < .15:
        c += 'h%d' % rng.choice([10, 700])
    if rng.random() < .1:
        c += 'k%d' % rng.choice([10, 1200])
    return c


def rand_prod(rng, n, idxs, sleepy):
    ops = ['x%d' % idxs[0]] if rng.random() < .6 else ['q']
    for _ in range(n):
        r = rng.random()
        if r < .5:
            ops.append('%s%d' % (rng.choice('ssssssdefw'), rng.choice(SIZES)))
            if rng.random() < .02:
                ops.append('h%d' % rng.choice(HUGE))
        elif r < .58:
            ops.append('n%d' % rng.choice(SIZES))
        elif r < .64:
            ops.append('r%d' % rng.choice(SIZES))
        elif r < .69:
            ops.append('c%d' % rng.choice(SIZES))
        elif r < .71:
            ops.append('C%d' % rng.choice(SIZES))
        elif r < .75:
            ops.append('v%d' % rng.randrange(6))
        elif r < .77:
            ops.append('j%d' % rng.choice([-100000, -3, 3, 100000]))
        elif r < .80 and len(idxs) > 1:
            ops.append('x%d' % rng.choice(idxs))
        elif r < .83:
            ops += ['s%d' % rng.choice(SIZES)] * rng.randrange(2, 20)
        elif sleepy:
            ops.append('z%d' % rng.choice([1, 50, 300, 700, 999, 1000, 1001, 2000, 3500]))
        else:
            ops.append('p')
    return '.'.join(ops)


def sched(rng, s):
    s.update(seed=rng.randrange(1 << 60), pa=rng.choice([0, .01, .05, .2]), ps=rng.choice([.1, .3, .6]), spur=rng.choice([0, 0, 0, .1]), fz=rng.choice([0, 0, .003, .02, .1]))
    if rng.random() < .3:
        s.update(pct=rng.choice([1, 2, 3, 5]), plen=rng.choice([200, 1000, 4000]))
    return s


def base(rng, **kw):
    s = dict(t0=rng.choice([5000, 5999, 1000, 0, 7300, 10 ** 9 + 123, rng.randrange(100000)]), roff=rng.choice([0, 1700000000, 3]),
             oq=rng.choice([2, 2, 3, 4, 8, 64, 1024]), bh=rng.choice([1024, 1024, 1100, 8192, 65536]), ft=rng.choice([1, 1, 2, 3]), iq=rng.choice([2, 4, 8, 16, 64]),
             nq=rng.choice([1, 1, 2, 3, 4]), m=rng.choice([0, 1]), nt=rng.choice([1, 2, 3, 7, 32]), ri=rng.choice([1, 1, 2, 3, 5]),
             bi=rng.choice([0, 1]), ct=rng.choice([0, 1]))
    if rng.random() < .4:     # the clock's epoch: around what the time's types hold
        s['tb'] = rng.choice([65536 * rng.randrange(1, 99), 32768 * rng.randrange(1, 99), rng.randrange(1, 99) << rng.randrange(7, 26), 1 << 31, 1 << 32, 4294967, 2147483]) + rng.choice([-7, -5, -3, -2, -1, 0, 1, 2])
    s.update(kw)
    return s


def rand_scenario(rng):
    kind = rng.random()
    s = base(rng)
    if rng.random() < .03:
        s.update({'def': 1, 'nq': 1, 'iq': 512, 'm': 0})
    free = list(range(s['nq']))
    if rng.random() < .4:
        s['cbq'] = free[-1]
        if not s['m']:
            free.pop()     # a single-producer queue serves the callbacks alone
    prods = []
    np = rng.choice([1, 1, 2, 3, 4])
    sleepy = rng.random() < .75
    for i in range(np):
        if s['m']:
            mine = free
        else:
            mine, free = free[:1], free[1:]
        if not mine:
            break
        p = rand_prod(rng, rng.choice([3, 8, 15, 30]), mine, sleepy)
        if not s['m'] or s.get('cbq', -1) >= 0:
            p = p.replace('q', 'x%d' % mine[0])
        prods.append(p)
    if kind < .12:         # the I/O thread is held in its first open while the queues fill up
        s['conns'] = 'OG1' + rng.choice(['', 'w40', 'n1']) + ',O'
        s['iq'] = rng.choice([2, 4, 8])
        idx = [p.split('.')[0] for p in prods]
        prods = ['%s.%s.z3000.%s' % (i, '.'.join(['s%d' % rng.choice(SIZES) for _ in range(rng.choice([1, s['iq'] - 1, s['iq'], s['iq'] + 3]))]), p) for i, p in zip(idx, prods)]
        s['main'] = 'z%d.g' % rng.choice([0, 1, 1500, 2999])
    else:
        s['conns'] = ','.join(rand_conn(rng, s['bi']) for _ in range(rng.choice([1, 1, 2, 3, 5]))) + rng.choice(['', ',O', ',O'])
        s['main'] = rng.choice(['', 'W', 'W.z5000', 'z%d' % rng.randrange(6000), 'W.z20000', 'z100'])
        if rng.random() < .3:
            s['main'] = '.'.join(filter(None, [s['main'], rng.choice(['q.q.q', 'q', 'q.q.q.q.q'])]))
    s['race'] = rng.choice([0, 0, 1])
    if prods:
        s['prod'] = '/'.join(prods)
    if not s['main']:
        del s['main']
    return sched(rng, s)


def special(rng, quick):
    """Directed families."""
    out = []
    # order, capacity, batching and flushing around every limit
    for m in (0, 1):
        for iq in (2, 4, 8):
            for oq in (2, 3, 4):
                k = iq - 1
                out.append(base(rng, m=m, iq=iq, oq=oq, nq=2, conns='OG1', prod='x0.' + 's5.' * (k + 2) + 'z2000.' + 's6.' * (k + 2) + '/x1.' + 's7.' * (k + 2) + 'z2500.s3.s2', main='z1000.g.W.z4000'))
    for size in (1, 4, 100, 508, 509, 1014, 1015, 1016, 1017, 1020, 1021, 2000, 70000):
        out.append(base(rng, bh=1024, oq=64, iq=64, nq=1, m=0, conns='O', prod='x0.' + ('s%d.' % size) * 12 + 's1.z3000.s1.' + ('s%d.' % size) * 3 + 's1', main='W.z3000'))
        out.append(base(rng, bh=1024, oq=64, iq=64, nq=1, m=0, conns='O', prod='x0.s1.s%d.s1.s%d.s%d.s900' % (size, size, size), main='W.z3000'))
    for a in range(1000, 1026):
        out.append(base(rng, bh=1024, oq=64, iq=64, nq=1, m=0, conns='O', prod='x0.s10.s%d.s1.s1' % (a - 10), main='W.z3000'))
    n = 1100
    out.append(base(rng, oq=1024, bh=65536, iq=2048, nq=1, m=1, conns='OG1', prod='x0.' + 's3.' * n + 'z3000', main='z10.g.W'))
    # huge frames among small ones
    for a in HUGE:
        for b in rng.sample(HUGE, 3):
            out.append(base(rng, bh=rng.choice([1024, 65536]), oq=rng.choice([4, 64]), iq=16, nq=1, m=rng.choice([0, 1]), conns='OG1,O', prod='x0.s5.h%d.s6.s7.h%d.h%d.s8.z2500.h%d.s9' % (a, b, a, b), main='z10.g.W.z3000'))
    # many queues
    for nq in (5, 16, 17, 33, 64, 65, 257, 1025) if quick else (5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1025, 3000):
        for m in (0, 1):
            mine = [list(range(nq))[k::3] for k in range(3)]
            prods = ['.'.join('x%d.s%d' % (i, rng.choice(SIZES)) + ('.s7' if rng.random() < .3 else '') for i in rng.sample(l, len(l)) + rng.sample(l, len(l))[:20]) for l in mine if l]
            out.append(base(rng, nq=nq, m=m, iq=rng.choice([2, 4, 8]), oq=rng.choice([4, 64]), all=1, conns=rng.choice(['O', 'OG1,O', 'F,Ow100,O']), prod='/'.join(prods),
                            main='.'.join(['q'] * (nq + rng.choice([0, 2])) + ['z100', 'g', 'W', 'z4000'])))
    # few of many queues hold anything when the end comes
    for nq in (3, 4, 5, 6, 7, 9, 17, 33, 70):
        for k in (1, 2, 3):
            for m in (0, 1):
                for cs in ('Od500', 'OG1'):
                    l = rng.choice([list(range(k)), list(range(nq))[-k:], rng.sample(range(nq), k)])
                    p = '.'.join('x%d' % i + '.s5' * rng.choice([1, 2, 7, 7, 15]) for i in l)
                    out.append(base(rng, nq=nq, m=m, iq=16, oq=rng.choice([2, 4, 64]), conns=cs + rng.choice(['', '', 'w120']) + ',O', prod=p, main='z100' + ('.g' if cs == 'OG1' else '')))
    # traffic at every interval around the flush timeout
    for ft in (1, 2):
        for iv in (1, 100, 333, 500, 900, 999, 1000, 1001, 1500, 1999, 2000, 2001):
            for nt in (1, 3, 32):
                cnt = min(60, 9000 // iv)
                out.append(base(rng, ft=ft, oq=64, bh=65536, iq=64, nq=1, m=0, nt=nt, conns='O', prod='x0.' + ('s5.z%d.' % iv) * cnt, main='W.z5000'))
    # retries: every delay and kind of failure
    for ri in (1, 2, 3, 5):
        for ft in (1, 2):
            for cs in ('F,F,F,O', 'Fd700,Fd2500,Fd6500,O', 'Ow0,Ow3,Ow20,O', 'Ow30,Ow50,O', 'Od1500w25,F,O', 'OA1,OA2,OA3,O', 'OA1k3000,O', 'Ow40k2500,O', 'Ow30s400,O'):
                out.append(base(rng, ri=ri, ft=ft, iq=8, nq=1, m=0, conns=cs, bi=1, ct=1, prod='x0.' + 's9.z300.' * 20 + 's9.z1300.' * 15, main='W.z12000'))
    # hours and days
    for ri, ft in ((600, 600), (600, 1), (1, 600), (60, 5), (10, 59)):
        for cs in ('F,F,F,O', 'Ow30,F,O', 'Ow130,Ow20,O', 'OA1,O', 'O'):
            gaps = [rng.choice([1000 * ri, 1000 * ri - 1, 1000 * ft, 500 * (ri + ft), 65536000 + rng.randrange(1000 * ri), 3600000 + rng.randrange(7200000)] if ft > 1 else [1000 * ri, 1000 * ri - 1, 1000, 3000]) for _ in range(5)]
            out.append(base(rng, ri=ri, ft=ft, iq=8, nq=1, m=0, conns=cs, bi=1, ct=1, prod='x0.' + ''.join('s9.z%d.s9.z%d.' % (g, rng.choice([1, 1000, 1000 * ft])) for g in gaps), main='W.z%d' % (1000 * (ri + 2 * ft))))
    out.append(base(rng, ri=5, ft=1, iq=8, nq=1, m=0, conns="Ow130,O", bi=1, ct=1, prod="x0.s9.z%d.s60.s60.s60.z8000.s9" % (65536000 + rng.randrange(5000)), main="W.z9000"))
    # destroy at every moment of a session
    for cs in ('O', 'F', 'Od500', 'Ow20', 'Ow45', 'On1', 'OA2', 'Os300'):
        for when in (0, 1, 400, 1000, 1001, 2500):
            for race in (0, 1):
                out.append(base(rng, iq=8, nq=2, m=0, conns=cs, bi=1, ct=1, race=race, prod='x0.s9.n8.s9.z600.s9.s9.z600.s2.z400.s1/x1.s3.z1000.s3.n4.s3', main='z%d' % when))
    # submissions that overtake or are overtaken by destroy at any point
    for _ in range(150):
        m = rng.choice([0, 1])
        np = rng.choice([2, 3, 4])
        out.append(base(rng, iq=rng.choice([4, 8]), nq=1 if m else np, m=m, conns=rng.choice(['O', 'O', 'F', 'Ow60']), race=1,
                        prod='/'.join('x%d.s3%s' % (0 if m else i, rng.choice(['', '.s4', '.p.s5', '.n2'])) for i in range(np)), main=rng.choice(['p', 'p.p.p.p', 'z0', 'z1000'])))
    racing = [dict(base(rng, iq=rng.choice([8, 16]), nq=1, m=1, conns='O', race=1, prod='/'.join('x0.s3' + '.s4' * rng.randrange(3) for _ in range(rng.choice([2, 3, 4]))), main=rng.choice(['p', 'p.p.p', 'z0'])),
                   seed=rng.randrange(1 << 60), pa=0, ps=rng.choice([.1, .5]), spur=0, fz=rng.choice([.03, .1, .25]), fzs=1) for _ in range(200 if quick else 4000)]
    out = [sched(rng, s) for s in out for _ in range(1 if quick else 8)]
    out += racing
    # every placement of few preemptions in small workloads
    small = [base(rng, t0=5000, oq=2, bh=1024, ft=1, iq=4, nq=1, m=0, nt=1, ri=1, bi=0, ct=0, conns='O', race=1, prod='x0.s3.s4', main=''),
             base(rng, t0=5000, oq=2, bh=1024, ft=1, iq=2, nq=1, m=1, nt=1, ri=1, bi=0, ct=0, conns='Ow25,O', race=1, prod='x0.s3.s4/x0.s5', main=''),
             base(rng, t0=5000, oq=2, bh=1024, ft=1, iq=4, nq=2, m=0, nt=1, ri=1, bi=0, ct=0, conns='O', race=1, prod='q.s3/q.s4', main='')]
    for s in small:
        if not s['main']:
            del s['main']
        steps = 260
        for d in (1, 2):
            combos = list(itertools.combinations(range(1, steps), d))
            if d == 2:
                combos = rng.sample(combos, 300 if quick else 12000)
            for pre in combos:
                out.append(dict(s, seed=rng.randrange(1 << 60), pa=0, ps=0, spur=0, pre=','.join(map(str, pre))))
    return out


def check(ctx):
    design(ctx)
    exe = build_sim(ctx, 'iothr', [HARNESS + '/iothr_driver.c'], lib_sources(), ['fstrm_writer_writev'])
    scen = special(ctx.rng, ctx.quick) + generated(ctx)
    scen += [rand_scenario(ctx.rng) for _ in range(2500 if ctx.quick else 40000)]
    for i, s in enumerate(scen):
        s['id'] = i
    order = sorted(range(len(scen)), key=lambda i: -len(scen[i].get('prod', '')))
    groups = [[scen[i] for i in order[k::4 * NCPU]] for k in range(4 * NCPU)]
    hist = {}
    for g, (h, crash, err) in zip(groups, run_parallel(lambda g: run_lines(exe, g), groups)):
        hist.update(h)
        if crash is not None:
            c = again(lambda x: run_lines(exe, x)[1], g, [s for s in g if s['id'] == crash], err)
            ctx.violate('the library crashed or hung', {'case.txt': ''.join(map(line, c)), 'stderr.txt': err})
            return
    seen = {}
    for i, h in sorted(hist.items()):
        seen.setdefault((json.dumps(cfg(scen[i])), h), i)
    traces = [dict(id=i, cfg=cfg(scen[i]), ev=events(h)) for (_, h), i in seen.items()]
    ctx.extra.update(schedules=len(hist), distinct_histories=len(traces), events=sum(len(t['ev']) for t in traces),
                     reached={k: sum(any(e['e'] == k for e in t['ev']) for t in traces) for k in ('wf', 'rx', 'fin', 'bb', 'wv', 'fr')},
                     refused_again=sum(e['e'] == 'sr' and e['res'] == 2 for t in traces for e in t['ev']))
    m = traces[len(traces) // 2]
    ctx.sample(dict(scenario=line(scen[m['id']]), ev=m['ev'][:40]))
    bad = validate(ctx, 'IothrTrace', traces, chunk=80000)
    if bad:
        t, l, out = bad
        s = scen[t['id']]
        h2 = run_lines(exe, [s])[0].get(t['id'])
        if h2 != hist[t['id']]:
            ctx.notes.append('not deterministic')
        ctx.violate('rules broken at event %d: %s' % (l, t['ev'][l - 1]), {'scenario.txt': line(s), 'trace.json': t, 'tlc.txt': out[-6000:]})


D = dict(NP=1, Shared='FALSE', NSub=2, IQ=2, OQ=2, BH=1000, FT=1, RI=1, NT=1, Bi='TRUE', MaxOpens=2, MaxT=2500, Unit=500, Block='FALSE', Gen='FALSE', Mutation='"none"')
MUT = dict(overfull={}, short=dict(IQ=4, NSub=3, MaxOpens=1), blocking=dict(MaxOpens=1), lifo=dict(IQ=4), freerefused={}, nodrain={}, interval={}, leak={},
           noretry=dict(MaxT=4500, NSub=1), overbatch=dict(NSub=4, IQ=8, MaxT=500, MaxOpens=1), overhint=dict(NSub=3, IQ=8, MaxT=500, MaxOpens=1, BH=250, OQ=4),
           defer=dict(MaxT=4500, MaxOpens=1, NSub=1), noflush={}, dup={}, keep={}, leakfail={}, dblfree=dict(IQ=4, MaxOpens=1), freefirst={}, nostop={}, nofinish={},
           nojoin={}, leakrest={})


def dcfg(spec='Spec', what='INVARIANT NoBad', **kw):
    return 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s\nCONSTANTS %s\n' % (spec, what, ' '.join('%s = %s' % x for x in dict(D, **kw).items()))


def design(ctx):
    muts = list(MUT) if not ctx.quick else ctx.rng.sample(sorted(MUT), 5)
    check_design(ctx, 'Iothr', dcfg(MaxT=2000 if ctx.quick else 4000), [(m, dcfg(Mutation='"%s"' % m, **MUT[m])) for m in muts], heap='12g')
    for kw in ([dict(MaxT=1000, NP=2, NSub=1, MaxOpens=1), dict(MaxT=1000, NP=2, NSub=1, MaxOpens=1, Shared='TRUE'),
                dict(MaxT=1500, Block='TRUE', IQ=4, MaxOpens=1, Bi='FALSE')] if ctx.quick else
               [dict(MaxT=2000, NP=2, NSub=1), dict(MaxT=1000, NP=2, NSub=2, MaxOpens=1, Shared='TRUE', IQ=4), dict(MaxT=2500, Block='TRUE', IQ=4, Bi='FALSE'),
                dict(MaxT=500, NSub=5, IQ=8, BH=250, OQ=4, MaxOpens=1), dict(MaxT=500, NSub=5, IQ=8, OQ=3, MaxOpens=1), dict(MaxT=5500, NSub=1, RI=2, MaxOpens=3, FT=2)]):
        check_design(ctx, 'Iothr', dcfg(**kw), heap='12g')
    if ctx.prop in ('I05', 'I06'):
        check_design(ctx, 'Iothr', dcfg('Fair', 'PROPERTY Returns', MaxT=1000, NSub=1, MaxOpens=1) if ctx.quick else dcfg('Fair', 'PROPERTY Returns', MaxT=1500, NSub=2, MaxOpens=1), heap='12g')


def generated(ctx):
    """Behaviours of the design (random simulation in TLC) turned into scenarios for the real code."""
    rng = ctx.rng
    jobs = [dict(NP=np, Shared=sh, NSub=ns, IQ=iq, OQ=oq, BH=bh, FT=ft, RI=ri, Bi=bi, MaxOpens=4, MaxT=9000, NT=rng.choice([1, 2]))
            for np, sh, ns, iq, oq, bh, ft, ri, bi in
            [(1, 'FALSE', 8, 4, 2, 1100, 1, 1, 'TRUE'), (2, 'FALSE', 5, 4, 3, 1100, 1, 2, 'TRUE'), (2, 'TRUE', 5, 4, 3, 1100, 1, 1, 'FALSE'),
             (2, 'FALSE', 12, 16, 16, 1100, 2, 2, 'FALSE'), (1, 'FALSE', 6, 2, 2, 1100, 2, 3, 'FALSE'), (2, 'TRUE', 8, 2, 4, 1100, 1, 3, 'TRUE')]]
    num = 60 if ctx.quick else 1500

    def one(a):
        j, seed = a
        r = tlc(ctx, 'Iothr', dcfg(what='INVARIANT Emit', **dict(j, Gen='TRUE')), args=['-simulate', 'num=%d' % num, '-depth', '600', '-seed', str(seed)],
                workers=1, heap='2g', name='gen%d' % seed)
        return [(j, json.loads(m.group(1).replace('\\"', '"'))) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)]
    out = []
    for j, h in (x for y in run_parallel(one, [(j, rng.randrange(1 << 30)) for j in jobs]) for x in y):
        prods = []
        for p, ops in enumerate(h['prods']):
            t, l = 0, ['x%d' % (0 if j['Shared'] == 'TRUE' else p)]
            for _, at in ops:
                if at > t:
                    l.append('z%d' % (at - t))
                    t = at
                l.append('s100')
            prods.append('.'.join(l))
        ct = rng.choice([0, 1])
        hs = (22 if ct else 12)
        conns = []
        for c in h['conns']:
            if not c['ok']:
                conns.append('F')
            elif c['wf'] == -1:
                conns.append('O')
            else:
                start = hs * (2 if j['Bi'] == 'TRUE' else 1)
                conns.append('Ow%d' % (rng.randrange(start) if c['wf'] == -2 else start + 104 * (c['wf'] - c['nw']) + rng.choice([0, 1, 4, 5, 11, 50, 103])))
        s = base(rng, oq=j['OQ'], bh=j['BH'], ft=j['FT'], iq=j['IQ'], nq=1 if j['Shared'] == 'TRUE' else j['NP'], m=1 if j['Shared'] == 'TRUE' else rng.choice([0, 1]),
                 nt=j['NT'], ri=j['RI'], bi=int(j['Bi'] == 'TRUE'), ct=ct, conns=','.join(conns + ['O']), prod='/'.join(prods), main='z%d' % h['dt'], race=1)
        out.append(sched(rng, s))
    if not out:
        raise CheckError('the specification generated no scenarios')
    ctx.extra['spec_generated_scenarios'] = len(out)
    return out
