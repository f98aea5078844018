"""N01: objects of all kinds side by side in one simulated process, each judged by its own rules (IsoRules)."""
import subprocess
import control, filecheck, iocheck, iodrv, iothrcheck, sockcheck
from simbuild import *

MUT = 'sharedcfg sharedstate sharedscratch destroyall'.split()
FORMS = ('ctl', 'io', 'sock', 'file', 'iothr')


def dcfg(mut='none', **k):
    d = dict(dict(N=2, Calls=2, Args='{1, 2}'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT NoBad\nCONSTANTS %s Mutation = "%s"\n' % (' '.join('%s = %s' % x for x in d.items()), mut)


def build_iso(ctx):
    parts = []
    for kind, src in (('io', 'io_driver.c'), ('ctl', 'ctl_driver.c'), ('sock', 'sock_driver.c'), ('file', 'iso_file.c'), ('iothr', 'iothr_driver.c')):
        for k in '12':
            p = ctx.path('iso', kind + k + '.c')
            with open(p, 'w') as f:
                f.write('#define ISO %s%s\n#include "%s/iso.h"\n#include "%s/%s"\n' % (kind, k, HARNESS, HARNESS, src))
            parts.append(p)
    wraps = sockcheck.SYS + ['fstrm_writer_writev']
    return build_sim(ctx, 'iso', [HARNESS + '/iso_main.c'] + parts, lib_sources(), wraps)


def ctl_case(rng):
    pool = [control.rand_ct(rng)[:40] for _ in range(3)]
    ops = []
    for _ in range(rng.choice([3, 6, 12])):
        r = rng.random()
        if r < .25:
            p = control.rand_frame(rng)
            hdr = rng.random() < .5
            b = (bytes(4) + control.w32(len(p)) if hdr else b'') + p
            ops.append('decode %d %s' % (hdr, control.hx(control.mutate(rng, b) if rng.random() < .4 else b)))
        elif r < .4:
            ops.append('set_type %x' % rng.choice([1, 2, 3, 4, 5, 6]))
        elif r < .6:
            ops.append('add ' + control.hx(rng.choice(pool)))
        elif r < .7:
            ops += ['get %d' % i for i in range(3)]
        elif r < .8:
            ops += ['match ' + control.hx(c) for c in pool]
        elif r < .85:
            ops.append('reset')
        else:
            h = rng.randrange(2)
            ops += ['set_type %x' % rng.choice([1, 4]), 'size %d' % h, 'encode %d 600' % h]
    return ops + ['get_type', 'num', 'get 0', 'set_type 4', 'encode 1 600', 'tname 3', 'fname 1']


class Part:
    """One task: its driver, the input for it, and how its output becomes events."""
    def __init__(self, ctx, rng, kind, copy):
        self.kind, self.name, self.cases = kind, kind + str(copy), []
        n = rng.choice([1, 1, 2, 3])
        if kind == 'ctl':
            self.cases = [ctl_case(rng) for _ in range(n)]
            self.text = ''.join('new %d\n%s\nend\n' % (i, '\n'.join(c)) for i, c in enumerate(self.cases))
        elif kind == 'io':
            while len(self.cases) < n:
                s = (iocheck.rand_writer if rng.random() < .5 else iocheck.rand_reader)(rng)
                if sum(len(p) for p in s['pays'].values() if isinstance(p, bytes)) + sum(len(t.get('b', '')) for c in s['conns'] for t in c['toks']) < 6000:
                    self.cases.append(s)
            self.text = ''.join(s.text(i) for i, s in enumerate(self.cases))
        elif kind == 'sock':
            while len(self.cases) < n:
                s = sockcheck.rand_run(rng)
                if len(s['ops']) < 600:
                    self.cases.append(dict(id=len(self.cases), fd0=5000 if copy == 1 else 9000, **s))
            self.text = ''.join(map(sockcheck.line, self.cases))
        elif kind == 'iothr':
            while len(self.cases) < min(n, 2):
                s = iothrcheck.rand_scenario(rng)
                s.pop("tb", None)      # this process has a clock of its own
                if len(s.get('prod', '')) < 250 and s.get('iq', 0) < 2000:
                    self.cases.append(dict(s, id=len(self.cases)))
            self.text = ''.join(map(iothrcheck.line, self.cases))
        else:
            d = ctx.path('isofiles', '')
            for i in range(n):
                ct = rng.randrange(2)
                z = lambda: rng.choice([1, 2, 7, 60, 200, 4096, 5000])
                if rng.random() < .5:
                    ops = ['o'] if rng.random() < .7 else []
                    for _ in range(rng.choice([1, 3, 6])):
                        ops.append('w' + '+'.join(str(z()) for _ in range(rng.choice([1, 1, 2, 4]))))
                        if rng.random() < .2:
                            ops += ['c', 'o']
                    s = dict(kind='w', ct=ct, path=d + '%x' % random.getrandbits(60), ops=','.join(ops + [rng.choice('cd')]))
                else:
                    c = filecheck.Content(ctx, ct, [z() for _ in range(rng.choice([0, 1, 3, 8]))], rng.random() < .8)
                    ops = ['o'] if rng.random() < .7 else []
                    ops += ['r'] * rng.choice([2, 5, 10]) + rng.choice([['c', 'o', 'r', 'c'], ['c'], ['d']])
                    s = dict(kind='r', ct=ct, path=c.path, ops=','.join(ops), _c=c)
                self.cases.append(s)
            self.text = ''.join('%d %s %d %s %s\n' % (i, s['kind'], s['ct'], s['path'], s['ops']) for i, s in enumerate(self.cases))

    def objects(self, out):
        """Events per case."""
        if self.kind == 'ctl':
            got = [json.loads(l) for l in out.split('\n') if l]
            if len(got) != len(self.cases):
                return None
            return [(dict(kind='ctl', cfg=0), g['ev']) for g in got]
        raws, cur = {}, None
        for l in out.split('\n'):
            if l.startswith('case '):
                cur, buf = int(l[5:]), []
            elif l == 'end' or l.startswith('end ') and self.kind == 'iothr':
                raws[cur] = buf
                cur = None
            elif cur is not None:
                buf.append(l)
        if len(raws) != len(self.cases):
            return None
        if self.kind == 'io':
            tr = [iodrv.to_trace(s, raws[i], i) for i, s in enumerate(self.cases)]
            return [(dict(kind='io', cfg=t['cfg']), t['ev']) for t in tr]
        if self.kind == 'sock':
            return [(dict(kind='sock', cfg=0), sockcheck.events(raws[i], s)) for i, s in enumerate(self.cases)]
        if self.kind == 'iothr':
            evs = [iothrcheck.events(raws[i]) for i in range(len(self.cases))]
            return [(dict(kind='iothr', cfg=dict(iothrcheck.cfg(s), t0=ev[0]['t'] if ev else 0)), ev) for s, ev in zip(self.cases, evs)]
        return [(dict(kind='file', cfg=0), filecheck.events(raws[i], s)) for i, s in enumerate(self.cases)]


def run_text(i, run):
    seed, pa, ps, parts = run
    return 'run %d %d %g %g %d\n' % (i, seed, pa, ps, len(parts)) + ''.join('part %s %d\n%s' % (p.name, len(p.text), p.text) for p in parts)


def run_group(exe, group):
    """group: [(id, run)]. Returns {id: (outputs of the parts, verdict)}, id of a crash or None, stderr."""
    p = subprocess.run([exe], input=''.join(run_text(i, r) for i, r in group), capture_output=True, text=True, errors='replace', timeout=800)
    out, pos, res, cur = p.stdout, 0, {}, None
    while pos < len(out):
        e = out.find('\n', pos)
        if e < 0:
            break
        l, pos = out[pos:e], e + 1
        if l.startswith('run '):
            cur, outs = int(l[4:]), []
        elif l.startswith('part '):
            n = int(l.split()[2])
            outs.append(out[pos:pos + n])
            pos += n
        elif l.startswith('over '):
            res[cur] = (outs, l[5:])
            cur = None
    return res, (cur if cur is not None else -1) if p.returncode or cur is not None else None, p.stderr[-3000:]


def check(ctx):
    q = ctx.quick
    check_design(ctx, 'Iso', dcfg(), [(m, dcfg(m)) for m in MUT])
    check_design(ctx, 'Iso', dcfg(N=3, Calls=1) if q else dcfg(N=3, Calls=2, Args='{1, 2, 3}'))
    exe = build_iso(ctx)
    rng = ctx.rng
    runs = []
    mixes = [(a, a) for a in FORMS] + [(a, b) for a in FORMS for b in FORMS if a < b]
    for k in range(1200 if q else 20000):
        mix = list(mixes[k % len(mixes)]) if rng.random() < .7 else [rng.choice(FORMS) for _ in range(rng.choice([3, 4]))]
        parts, used = [], {}
        for kind in mix:
            used[kind] = used.get(kind, 0) + 1
            if used[kind] <= 2:
                parts.append(Part(ctx, rng, kind, used[kind]))
        pa, ps = rng.choice([(0, 1), (0, .5), (0, .2), (.001, .3), (.01, .3), (.05, .5), (.3, .5), (1, 1)])
        runs.append((rng.randrange(1 << 60), pa, ps, parts))
    todo = list(enumerate(runs))
    groups = [todo[k::4 * NCPU] for k in range(4 * NCPU)]
    traces, nobj = [], dict.fromkeys(FORMS, 0)
    for g, (res, crash, err) in zip(groups, run_parallel(lambda g: run_group(exe, g), groups)):
        if crash is not None:
            c = again(lambda x: run_group(exe, x)[1], g, [x for x in g if x[0] == crash], err)
            ctx.violate('the library crashed or hung', {'case.txt': ''.join(run_text(*x) for x in c), 'stderr.txt': err})
            return
        for i, run in g:
            outs, verdict = res[i]
            objs, evs = [], []
            for p, o in zip(run[3], outs):
                got = p.objects(o)
                if got is None:
                    verdict = 'a task stopped early'
                    continue
                for d, ev in got:
                    objs.append(d)
                    evs.append([dict(o=len(objs), e=e) for e in ev])
                    nobj[p.kind] += 1
            # objects take turns in the trace; which turns does not matter, as the rules keep them apart
            merged = [evs[n][k] for _, n, k in sorted(((k + 1) / (len(s) + 1), n, k) for n, s in enumerate(evs) for k in range(len(s)))]
            traces.append(dict(id=i, objs=objs, ev=merged + [dict(o=0, e=verdict)]))
    ctx.extra.update(runs=len(runs), objects=nobj, events=sum(len(t['ev']) for t in traces))
    ctx.sample(dict(run=run_text(*todo[5])[:1500], ev=traces[0]['ev'][:20]))
    bad = validate(ctx, 'IsoTrace', traces, control.CONSTS, chunk=30000)
    if bad:
        t, l, out = bad
        ctx.violate('rules broken at event %d: %s' % (l, str(t['ev'][l - 1])[:400]),
                    {'case.txt': run_text(t['id'], runs[t['id']]), 'trace.json': t, 'tlc.txt': out[-5000:]})
