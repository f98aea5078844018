"""Q01, Q02: the queue implementations under simulated schedules, judged by QueueRules."""
import itertools, subprocess
from simbuild import *


def dcfg(size, np, ni, nr, model, locked, mut='none'):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT NoBad\nCONSTANTS Size = %d NP = %d NIns = %d NRem = %d '
            'Model = "%s" Locked = %s Mutation = "%s"\n' % (size, np, ni, nr, model, 'TRUE' if locked else 'FALSE', mut))


def run_lines(exe, lines):
    """lines: dict id -> driver line. Returns id -> list of event lines, plus the id of a crash or None."""
    p = subprocess.run([exe], input=''.join(lines), capture_output=True, text=True, errors='replace', timeout=600)
    hist, cur, buf = {}, None, []
    for l in p.stdout.split('\n'):
        if l.startswith('case '):
            cur, buf = int(l[5:]), []
        elif l == 'end':
            hist[cur] = tuple(buf)
            cur = None
        elif cur is not None:
            buf.append(l)
    return hist, (cur if cur is not None else -1) if p.returncode or cur is not None else None, p.stderr[-3000:]


def events(lines):
    ev = []
    for l in lines:
        f = l.split(' ')
        if f[0] == 'i':
            ev.append(dict(e='i', t=int(f[1]), it=int(f[2])))
        elif f[0] == 'I':
            ev.append(dict(e='I', t=int(f[1]), ok=f[2] == '1', n=int(f[3]), it=0))
        elif f[0] == 'r':
            ev.append(dict(e='r', t=0))
        elif f[0] == 'R':
            ev.append(dict(e='R', t=0, ok=f[2] == '1', it=int(f[3]), n=int(f[4])))
        elif f[0] == 'N':
            ev.append(dict(e='N', ok=f[1] == '1'))
        else:
            ev.append(dict(e='X', what=l))
    return ev


def check(ctx, impl):
    locked = impl == 'mutex'
    q = ctx.quick
    if locked:
        check_design(ctx, 'Queue', dcfg(2, 2, 2, 3, 'SC', True), [(m, dcfg(2 if m == 'nolock' else 4, 2, 2, 3, 'SC', True, m)) for m in ('nolock', 'earlyunlock')])
        check_design(ctx, 'Queue', dcfg(2, 3, 1, 3, 'SC', True) if q else dcfg(2, 3, 2, 3, 'SC', True))
        check_design(ctx, 'Queue', dcfg(4, 2, 2, 3, 'TSO', True) if q else dcfg(4, 2, 3, 4, 'TSO', True))
    else:
        check_design(ctx, 'Queue', dcfg(2, 1, 3, 4, 'TSO', False),
                     [(m, dcfg(2, 1, 3, 4, 'PSO', False, m)) for m in ('headfirst', 'nowmb', 'space0', 'count')])
        check_design(ctx, 'Queue', dcfg(2, 1, 3, 4, 'PSO', False))
        check_design(ctx, 'Queue', dcfg(4, 1, 5, 5, 'TSO', False) if q else dcfg(4, 1, 8, 8, 'TSO', False))
        if not q:
            check_design(ctx, 'Queue', dcfg(4, 1, 5, 5, 'PSO', False))
            check_design(ctx, 'Queue', dcfg(2, 1, 6, 7, 'PSO', False))
    exe = build_sim(ctx, 'q', [HARNESS + '/queue_driver.c'], sorted(glob.glob(REPO + '/libmy/*.c')))
    rng = ctx.rng
    par = {}     # id -> cfg
    lines = []

    def add(size, esize, np, ni, retry, nrem, mode, pa, ps, pct, start, pre='-', fz=0):
        i = len(lines)
        par[i] = dict(exact=locked, size=size, np=np)
        lines.append('%d %s %d %d %d %d %d %d %d %d %g %g %d %d %s %g\n' %
                     (i, impl, size, esize, np, ni, retry, nrem, mode, rng.randrange(1 << 60), pa, ps, pct, start, pre, fz))
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 1023, 1024, 1025, 16384, 65535, 65536, 1048575, 1048576]:
        add(n, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0)
    # every schedule with at most k preemptions of small workloads
    for (size, np, ni, retry, nrem, start), k, steps in (
            ((2, 1, 2, 1, 2, 1), 2 if q else 3, 70), ((2, 1, 3, 1, 3, 0), 2, 90), ((4, 1, 4, 0, 2, 2), 2, 90)) if not locked else (
            ((2, 1, 2, 1, 2, 1), 2, 60), ((2, 2, 1, 1, 2, 0), 2 if q else 3, 70), ((4, 3, 1, 0, 2, 3), 2, 70)):
        for d in range(k + 1):
            for pre in itertools.combinations(range(1, steps), d):
                add(size, 16, np, ni, retry, nrem, 1, 0, 0, 0, start, ','.join(map(str, pre)) or '1000000')
    ns = len(lines)
    for _ in range(4000 if q else 60000):
        size = rng.choice([2, 2, 4, 4, 8, 16])
        np = rng.choice([1, 2, 3, 4]) if locked else 1
        ni = rng.choice([2, 4, 8, 12]) if np == 1 else rng.choice([2, 3, 4])
        pct = rng.choice([0, 0, 0, 2, 3, 5])
        add(size, rng.choice([1, 2, 3, 8, 16, 32, 33, 64, 100]), np, ni, rng.choice([0, 1, 2]), rng.choice([0, 2, ni * np, 2 * ni * np]), rng.choice([0, 1]),
            rng.choice([0.02, 0.1, 0.3, 0.6]), rng.choice([0.1, 0.5]), pct, rng.randrange(0, 2 * size), fz=rng.choice([0, 0, .02, .1]))
    n = (len(lines) + 4 * NCPU - 1) // (4 * NCPU)
    seen, runs = {}, 0
    parts = [lines[i:i + n] for i in range(0, len(lines), n)]
    for part, (hist, crash, err) in zip(parts, run_parallel(lambda p: run_lines(exe, p), parts)):
        runs += len(hist)
        for i, h in hist.items():
            seen.setdefault((par[i]['size'], par[i]['np'], h), i)
        if crash is not None:
            c = again(lambda x: run_lines(exe, x)[1], part, [lines[crash]] if crash >= 0 else [], err)
            ctx.violate('the queue crashed or hung', {'case.txt': ''.join(c), 'stderr.txt': err})
            return
    if runs != len(lines):
        raise CheckError('%d of %d runs' % (runs, len(lines)))
    ctx.extra.update(schedules=runs, systematic=ns, distinct_histories=len(seen))
    traces = [dict(id=i, cfg=par[i], ev=events(h)) for (_, _, h), i in seen.items()]
    ctx.sample(dict(run=lines[traces[len(traces) // 2]['id']], ev=traces[len(traces) // 2]['ev'][:30]))
    bad = validate(ctx, 'QueueTrace', traces, chunk=150000)
    if bad:
        t, l, out = bad
        ctx.violate('history not explained by a bounded FIFO at event %d: %s' % (l, t['ev'][l - 1]),
                    {'case.txt': lines[t['id']], 'trace.json': t, 'tlc.txt': out[-5000:]})


def q01(ctx):
    ctx.assumptions.append('Implementation interleavings are sequentially consistent at memory access granularity; store buffering (TSO, PSO) is explored in the design.')
    check(ctx, 'mb')


def q02(ctx):
    check(ctx, 'mutex')
