"""S03: a writer and a reader joined by pipes, in the simulated runtime, judged by PairRules."""
from simbuild import *
import subprocess


def run_lines(exe, lines):
    p = subprocess.run([exe], input=''.join(lines), capture_output=True, text=True, errors='replace', timeout=800)
    hist, cur, buf = {}, None, []
    for l in p.stdout.split('\n'):
        if l.startswith('case '):
            cur, buf = int(l[5:]), []
        elif l == 'end':
            hist[cur] = tuple(buf)
            cur = None
        elif cur is not None:
            buf.append(l)
    return hist, (cur if cur is not None else -1) if p.returncode or cur is not None else None, p.stderr[-3000:]


def events(lines):
    ev = []
    for l in lines:
        f = l.split()
        if f[0] in ('wo', 'ro', 'wret', 'wc', 'rc'):
            ev.append(dict(e=f[0], ok=f[1] == '1'))
        elif f[0] in ('wg', 'rg'):
            ev.append(dict(e=f[0], ok=f[1] == '1', cts=[x[1:] for x in f[2:]]))
        elif f[0] == 'wcall':
            ev.append(dict(e='wcall', ids=[int(x) for x in f[1:]]))
        elif f[0] == 'rr':
            ev.append(dict(e='rr', res=f[1], id=int(f[2])))
        elif f[0] in ('wx', 'over', 'sess'):
            ev.append(dict(e=f[0]))
        else:
            ev.append(dict(e='X', what=l))
    # an implicit open shows in what follows it
    return ev


def fix_implicit(ev, implicit):
    """Sessions opened implicitly: the first call that needs the open stands for it."""
    out = []
    for e in ev:
        if implicit & 1 and e['e'] in ('wg', 'wret') and not any(x['e'] == 'wo' for x in out):
            out.append(dict(e='wo', ok=e['ok']))
        if implicit & 2 and e['e'] in ('rg', 'rr') and not any(x['e'] == 'ro' for x in out):
            out.append(dict(e='ro', ok=e['ok'] if e['e'] == 'rg' else e['res'] != 'fail'))
        out.append(e)
    return out


def dcfg(what='', spec='Fair', mut='none', **k):
    d = dict(dict(Cts='{"a", "b"}', MaxCts=2, NW=2, Cap=1, Sessions=1, Gen='FALSE'), **k)
    return 'SPECIFICATION %s\nCHECK_DEADLOCK TRUE\nINVARIANT NoBad\n%s\nCONSTANTS %s Mutation = "%s"\n' % (
        spec, what or ('PROPERTY Ends' if spec == 'Fair' else ''), ' '.join('%s = %s' % x for x in d.items()), mut)


MUT = 'lastct ownct nostop mute echo any nofinish'.split()


def check(ctx):
    q, rng = ctx.quick, ctx.rng
    check_design(ctx, 'Pair', dcfg(), [(m, dcfg(spec='Spec', mut=m)) for m in MUT])
    check_design(ctx, 'Pair', dcfg(Sessions=2))
    if not q:
        check_design(ctx, 'Pair', dcfg(Cts='{"a", "b", "c"}', MaxCts=3, NW=1))
        check_design(ctx, 'Pair', dcfg(Cap=3, NW=4, Sessions=2))
    exe = build_sim(ctx, 'pair', [HARNESS + '/pair_driver.c'], lib_sources())
    par, lines = {}, []

    def add(w, r, bi, batches, cap=1, maxframe=0, implicit=0, ps=.5):
        if implicit & 5 == 5 and not any(c for c in batches[0]):
            implicit &= ~1     # nothing would open it
        i = len(lines)
        hx = lambda c: ','.join(x or '-' for x in c) or 'none'
        par[i] = (dict(w=w, r=r, bi=bool(bi)), implicit)
        b = '/'.join(','.join('+'.join(map(str, c)) for c in s) or '.' for s in batches)
        lines.append('%d %d %d %d %d %d %d %g w=%s r=%s b=%s\n' % (i, rng.randrange(1 << 60), bi, cap, len(batches), maxframe, implicit, ps, hx(w), hx(r), b))

    # every terminal behaviour of the design
    r = tlc(ctx, 'Pair', dcfg('INVARIANT Emit', 'Spec', Gen='TRUE', Sessions=1 if q else 2, NW=2))
    gen = {m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)}
    if not gen:
        raise CheckError('the specification generated no scenarios')
    ctx.extra['spec_generated_scenarios'] = len(gen)
    code = {'a': '6161', 'b': '62'}
    for g in sorted(gen):
        h = json.loads(g.replace('\\"', '"'))
        c = h['cfg']
        ss = [[]]
        for n in h['batches']:
            if n:
                ss[-1].append([rng.choice([1, 2, 5, 100]) for _ in range(n)])
            else:
                ss.append([])
        add([code[x] for x in c['w']], [code[x] for x in c['r']], int(c['bi']), ss, rng.choice([1, 3, 16, 1000]), 0, rng.choice([0, 0, 0, 1, 2, 3, 8, 16]))
    pool = ['61', '62', '6161', '', '00', '6100', '616263' * 20, 'ff' * 256, 'ff' * 255 + 'fe', '00' + 'ff' * 255, '616263' * 19 + '616264', '41']
    sizes = [1, 2, 3, 4, 5, 7, 8, 12, 16, 100, 128, 255, 256, 511, 512, 1000]
    for _ in range(3000 if q else 40000):
        mk = lambda: [rng.choice(pool[:rng.choice([2, 4, 12])] if rng.random() < .9 else pool[7:10]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        w, rr = mk(), mk()
        for c in (w, rr):      # the frame that lists them must be expressible
            while sum(8 + len(x) // 2 for x in c) > 508:
                c.pop()
        mf = rng.choice([0, 0, 512, 1000, 2000])
        sz = lambda: min(rng.choice(sizes + [mf or 1000, 4000, 20000 if rng.random() < .05 else 3]), mf or 1048576)
        ns = rng.choice([1, 1, 2, 3])
        bs = []
        for _ in range(ns):
            kind = rng.random()
            if kind < .08:
                bs.append([[rng.choice([1, 2, 3]) for _ in range(rng.choice([63, 64, 65, 128, 129, 511, 512, 513, 600]))]])
            else:
                bs.append([[sz() for _ in range(rng.choice([1, 1, 1, 2, 3, 9]))] for _ in range(rng.choice([0, 1, 2, 3, 8]))])
        add(w, rr, rng.choice([0, 1]), bs, rng.choice([1, 2, 7, 64, 1000, 65536]), mf, rng.choice([0, 0, 1, 2, 3, 4, 7, 8, 16, 24]), rng.choice([.1, .5, 1]))
    for _ in range(150 if q else 1500):      # long lists
        n = rng.choice([5, 8, 9, 15, 16, 17, 31, 32, 33, 48, 50])
        own = ['%04x' % (rng.randrange(256) << 8 | i) if i % 3 else '%02x' % i for i in range(n)]
        kind = rng.randrange(5)
        if kind == 0:
            other = [own[-1]]
        elif kind == 1:
            other = own[::-1]
        elif kind == 2:
            other = ['ee%02x' % i for i in range(n - 1)] + [rng.choice(own)]
        elif kind == 3:
            other = ['ee%02x' % i for i in range(n)]
        else:
            other = rng.sample(own, rng.randrange(1, n)) + ['ee']
        w, rr = rng.choice([(own, other), (other, own)])
        add(w, rr, rng.choice([0, 1, 1, 1]), [[[rng.choice([1, 5, 300])]]] * rng.choice([1, 2]), rng.choice([1, 7, 64, 1000, 65536]), 0, rng.choice([0, 0, 1, 2, 3, 8, 16]), rng.choice([.1, .5]))
    for n in (65536, 262144, 1048575, 1048576):
        add([], [], 1, [[[n]], [[n, 1, n]]], 65536, 0, 0, .2)
    groups = [lines[k::4 * NCPU] for k in range(4 * NCPU)]
    hist = {}
    for g, (h, crash, err) in zip(groups, run_parallel(lambda g: run_lines(exe, g), groups)):
        hist.update(h)
        if crash is not None:
            c = again(lambda x: run_lines(exe, x)[1], g, [l for l in g if l.startswith('%d ' % crash)], err)
            ctx.violate('the library crashed or hung', {'case.txt': ''.join(c), 'stderr.txt': err})
            return
    seen = {}
    for i, h in sorted(hist.items()):
        seen.setdefault((json.dumps(par[i]), h), i)
    traces = [dict(id=i, cfg=par[i][0], ev=fix_implicit(events(h), par[i][1])) for (_, h), i in seen.items()]
    ctx.extra.update(schedules=len(hist), distinct_histories=len(traces), events=sum(len(t['ev']) for t in traces),
                     delivered=sum(e['e'] == 'rr' and e['res'] == 'ok' for t in traces for e in t['ev']),
                     disagreeing=sum(any(e['e'] == 'ro' and not e['ok'] for e in t['ev']) for t in traces))
    ctx.sample(dict(run=lines[traces[1]['id']], ev=traces[1]['ev'][:30]))
    bad = validate(ctx, 'PairTrace', traces)
    if bad:
        t, l, out = bad
        ctx.violate('rules broken at event %d: %s' % (l, t['ev'][l - 1]), {'case.txt': lines[t['id']], 'trace.json': t, 'tlc.txt': out[-5000:]})
