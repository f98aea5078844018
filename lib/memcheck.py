"""M01: memory held by reader, writer, control and option objects (Ledger / LedgerRules / LedgerTrace)."""
import json, re
from common import *
from iodrv import Script, payload, run_scripts, ctl_payload, tok_bytes
import control, filecheck, iocheck, sockcheck

FNS = 'malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf posix_memalign aligned_alloc'.split()
MUT = 'leakrefused leakopt nonull keep leakfail buf leakct leakstop leakbuf leakrdwr leakobj leakready'.split()
REAL = ['-Wno-error'] + ['-D%s=__real_%s' % (f, f) for f in FNS if f not in ('aligned_alloc', 'reallocarray')]


def dcfg(what='NoBad', mut='none', **k):
    d = dict(dict(NOps=9, NCts=1, Gen='FALSE'), **k)
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS Mutation = "%s"\n' % (what, mut) +
            ''.join('CONSTANTS %s = %s\n' % kv for kv in d.items()))


def build_with_books(ctx, name, extra=()):
    drv = HARNESS + '/%s_driver.c' % name
    return build(ctx, name, [drv, HARNESS + '/ledger.c'] + lib_sources(), ASAN + ['-U_FORTIFY_SOURCE', '-I' + REPO + '/fstrm'],
                 ASAN + ['-Wl,--wrap=' + f for f in list(FNS) + list(extra)], per_file=lambda s: REAL if s == drv else ['-fno-builtin'] if s.endswith('/ledger.c') else [])


def events(lines):
    """Lines "M <event> [<kind>] [<null>] <live>" -> events."""
    ev = []
    for l in lines:
        f = l.split()
        if not f or f[0] != 'M':
            continue
        e = dict(e=f[1], k=f[2] if len(f) > 3 else '', null=True, live=int(f[-1]))
        if f[1] == 'gone':
            e['null'] = f[3] == '1'
        ev.append(e)
    return ev


def rounds(rng, role, bi, k, kind):
    """k identical sessions, one after the other, on one handle."""
    own = [b'abc', b'd'][:rng.randrange(3)]
    s = Script(role=role, bi=bi, cts=own, pays={1: payload(1, 9), 2: payload(2, 300)}, conns=[], ops=[])
    acc = own[:1]
    toks, ops, cut = [], [], 0
    if role == 'w':
        if bi:
            toks = [dict(k='ctl', p=ctl_payload(2, acc)), dict(k='ctl', p=ctl_payload(5))]
        ops = [['open'], ['write', 1, 2], ['write1', 1], ['get', 2], ['close']]
    else:
        toks = [dict(k='ctl', p=ctl_payload(4, acc))] if bi else []
        toks += [dict(k='ctl', p=ctl_payload(1, acc)), dict(k='data', id=11, b=payload(11, 40)), dict(k='data', id=12, b=payload(12, 700))]
        toks.append(dict(k='ctl', p=ctl_payload(3)))
        ops = [['open'], ['read'], ['read'], ['read'], ['get', 1], ['close']]
    c = dict(open='ok', close='ok', toks=toks, inend='stop', wfail=-1)
    if kind == 'openfail':
        c['open'], ops = 'fail', [['open']]
    elif kind == 'write':
        c['wfail'] = rng.randrange(120)
    elif kind == 'cut':
        n = sum(len(tok_bytes(t)) for t in toks)
        if n:
            c['cut'] = rng.randrange(1, n + 1)
    elif kind == 'closefail':
        c['close'] = 'fail'
    elif kind == 'garbage' and toks:
        i = rng.randrange(len(toks))
        b = bytearray(tok_bytes(toks[i]))
        toks[i] = dict(k='raw', b=bytes(b[:rng.randrange(1, len(b))]) + bytes(rng.randrange(256) for _ in range(9)))
    elif kind == 'mismatch' and toks:
        toks[0] = dict(k='ctl', p=ctl_payload(2 if role == 'w' else 4 if bi else 1, [b'other']))
    elif kind == 'implicit':
        ops = ops[1:]
    elif kind == 'reopen':
        ops = ops[:-1] + [['open'], ['open'], ['close']]
    s['conns'] = [c] * k
    s['ops'] = (ops + [['mark']]) * k
    if rng.random() < .6:
        s['ops'].append(['destroy'])
    return s


KINDS = ['ok', 'openfail', 'write', 'cut', 'closefail', 'garbage', 'mismatch', 'implicit', 'reopen']


def from_spec(h, rng):
    """A behaviour of Ledger as a script for a writer or a reader."""
    role, bi = rng.choice('wr'), rng.random() < .7
    s = rounds(rng, role, bi, 1, 'ok')
    good, s['conns'], s['ops'] = s['conns'][0], [], []
    fine = dict(good)
    for op in h:
        if op == 'open':
            s['conns'].append(dict(fine))
            s['ops'].append(['open'])
        elif op == 'openfail':
            k = rng.choice(['open', 'cut', 'write'])
            c = dict(fine)
            n = len(tok_bytes(c['toks'][0])) if c['toks'] else 0
            if k == 'open' or not n:
                c['open'] = 'fail'
            elif k == 'cut':
                c['toks'] = c['toks'][:1]
                c['cut'] = rng.randrange(1, n + 1)
            else:
                c['wfail'] = rng.randrange(12)
            s['conns'].append(c)
            s['ops'].append(['open'])
        elif op == 'read':
            s['ops'].append(['read'] if role == 'r' else ['write', 1])
        elif op == 'close':
            s['ops'].append(['close'])
    if rng.random() < .7:
        s['ops'].append(['destroy'])
    return s


def io_scripts(ctx):
    rng, out = ctx.rng, []
    r = tlc(ctx, 'Ledger', dcfg('Emit', Gen='TRUE', NOps=8 if ctx.quick else 10), workers=1, name='ledgergen')
    gen = [json.loads(m.group(1).replace('\\"', '"'))['h'] for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)]
    gen = [list(x) for x in sorted({tuple(h) for h in gen if 'create' in h})]
    if not gen:
        raise CheckError('the specification generated no scripts')
    ctx.extra['spec_generated_scripts'] = len(gen)
    for h in gen:
        out += [from_spec(h, rng) for _ in range(4)]
    for role in 'wr':
        for bi in (True, False):
            for kind in KINDS:
                for k in (4, 5, 30 if kind == 'ok' else 12):
                    for _ in range(1 if kind in ('ok', 'openfail', 'closefail') else 3 if ctx.quick else 20):
                        out.append(rounds(rng, role, bi, k, kind))
    out += [s for s in iocheck.fault_enumeration(rng)]
    n = 1200 if ctx.quick else 30000
    out += [iocheck.rand_writer(rng) for _ in range(n)] + [iocheck.rand_reader(rng) for _ in range(n)]
    for s in out:
        if rng.random() < .3 and s['ops'] and s['ops'][-1][0] == 'destroy':   # destroyed at any moment
            s['ops'] = s['ops'][:rng.randrange(len(s['ops']))] + [['destroy']]
    return out


def check(ctx):
    rng = ctx.rng
    check_design(ctx, 'Ledger', dcfg(NOps=10), [(m, dcfg(mut=m)) for m in (rng.sample(MUT, 5) if ctx.quick else MUT)])
    if not ctx.quick:
        check_design(ctx, 'Ledger', dcfg(NOps=16, NCts=3))
    traces, cases = [], {}

    def crash(what, text, err):
        ctx.violate('the library crashed or hung (%s)' % what, {'case.txt': text, 'stderr.txt': err})

    def add(where, text, ev):
        if ev:
            cases[len(traces)] = (where, text)
            traces.append(dict(id=len(traces), ev=ev))

    # handles over a scripted transport
    exe = build_with_books(ctx, 'io')
    scripts = io_scripts(ctx)
    parts = [scripts[k::2 * NCPU] for k in range(2 * NCPU)]
    for part, (raws, crashes) in zip(parts, run_parallel(lambda p: run_scripts(exe, p), parts)):
        for s, raw in zip(part, raws):
            if raw is not None:
                add('io', s.text(0), events(raw))
        if crashes:
            k = crashes[0][0]
            if run_scripts(exe, [part[k]])[1]:
                return crash('handle', part[k].text(0), crashes[0][2] + '\n' + crashes[0][3])
            raise CheckError('a run failed once: ' + crashes[0][2])

    # socket writers
    exe = build_with_books(ctx, 'sock', sockcheck.SYS)
    scen = [dict(id=i, **s) for i, s in enumerate(sockcheck.scenarios(ctx, rng))]
    for _ in range(60 if ctx.quick else 800):
        s = sockcheck.base(rng)
        k = rng.choice([4, 9])
        plan = rng.choice(['x0', 'x0', 'x0', 'C111', 'S24', 's1.1.9', 's9.3.e32', 's7.i.100', 'r3.e104', 'r1.i.1', 'x5', 'i5'])
        if plan[0] in 'sr':   # a plan for each connection that a round can make
            k = 4
        s['ops'] = ','.join(rng.choice([['o', 'w5', 'c', 'm'], ['o', 'c', 'm'], ['w9+3', 'c', 'm'], ['o', 'm'], ['o', 'o', 'w1', 'w2', 'c', 'c', 'm']]) * k)
        s['conns'] = '/'.join([plan] * 16)
        scen.append(dict(s, id=len(scen)))
    groups = [scen[k::2 * NCPU] for k in range(2 * NCPU)]
    for g, (h, bad, err) in zip(groups, run_parallel(lambda g: sockcheck.run_lines(exe, g), groups)):
        if bad is not None:
            c = [s for s in g if s['id'] == bad]
            if bad < 0 or sockcheck.run_lines(exe, c)[1] is None:
                raise CheckError('driver failed: %s %s' % (c, err))
            return crash('socket writer', sockcheck.line(c[0]), err)
        for s in g:
            add('sock', sockcheck.line(s), events(h[s['id']]))
    init = sockcheck.init_cases()
    p = subprocess.run([exe], input=''.join('init %s %s %s\n' % c[:3] for c in init), capture_output=True, text=True, errors='replace', env=dict(os.environ, **ASAN_ENV), timeout=300)
    blocks = p.stdout.split('case -1\n')[1:]
    if p.returncode or len(blocks) != len(init):
        return crash('socket writer creation', 'init %s %s %s\n' % init[min(len(blocks), len(init)) - 1][:3], p.stderr[-3000:])
    for c, b in zip(init, blocks):
        add('init', 'init %s %s %s\n' % c[:3], events(b.split('\n')))

    # file handles
    exe = build_with_books(ctx, 'file', ('fopen', 'fopen64'))
    scen = list(enumerate(filecheck.scenarios(ctx, rng)))
    if ctx.quick:
        scen = rng.sample(scen, min(len(scen), 1500))
    scen = [s for _, s in scen]
    for _ in range(60 if ctx.quick else 800):
        k = rng.choice([4, 9, 20])
        s = rng.choice([x for x in scen if x['kind'] == 'w' or '_c' in x])
        ops = [['o', 'w5', 'w3000', 'c', 'm'], ['o', 'c', 'm'], ['w9+3', 'c', 'm']] if s['kind'] == 'w' else [['o', 'r', 'r', 'c', 'm'], ['r', 'c', 'm'], ['o', 'R', 'c', 'm']]
        scen.append(dict(s, ops=','.join(rng.choice(ops) * k)))
    scen = list(enumerate(scen))
    groups = [scen[k::2 * NCPU] for k in range(2 * NCPU)]
    for g, (h, bad, err) in zip(groups, run_parallel(lambda g: filecheck.run_lines(ctx, exe, g), groups)):
        if bad is not None:
            c = [x for x in g if x[0] == bad[0]]
            if filecheck.run_lines(ctx, exe, c)[1] is None:
                raise CheckError('a run failed once: %s %s' % (c, err))
            return crash('file handle', filecheck.line(*c[0]), err)
        for i, s in g:
            add('file', filecheck.line(i, s), events(h[i]))

    # I/O threads and bare transports
    exe = build_with_books(ctx, 'obj', ('clock_gettime', 'clock_getres', 'pthread_condattr_setclock'))
    ol = []
    for _ in range(160 if ctx.quick else 2000):
        ol.append([rng.randrange(2), rng.choice([1, 1, 2, 5, 33, 300]), rng.choice([2, 4, 64]), rng.choice([2, 8, 64]), rng.choice([1024, 65536]), rng.choice([0, 0, 0, 1, 9]),
                   rng.choice([-1, -1, -1, 3, 30, 60]), rng.randrange(2), rng.choice([0, 1, 3, 20, 200]), rng.choice([0, 0, 1, 5, 20])])
    text = ['%d %s\n' % (i, ' '.join(map(str, l))) for i, l in enumerate(ol)]
    parts = [text[k::NCPU] for k in range(NCPU)]

    def lives(lines):
        try:
            return subprocess.run([exe], input=''.join(lines), capture_output=True, text=True, errors='replace', timeout=300, env=dict(os.environ, **ASAN_ENV))
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess([], 1, (e.stdout or b'').decode(), 'timeout')
    for part, p in zip(parts, run_parallel(lives, parts)):
        blocks = p.stdout.split('case ')[1:]
        if p.returncode or 'X ' in p.stdout:
            k = len(blocks) - 1
            if 'X ' in p.stdout:
                raise CheckError('an object could not be created: ' + p.stdout[-500:])
            if any(lives(part[k:k + 1]).returncode for _ in range(20)):
                return crash('I/O thread', part[k], p.stderr[-5000:])
            raise CheckError('a run failed once: ' + p.stderr[-2000:])
        for l, b in zip(part, blocks):
            add('obj', l, events(b.split('\n')))

    # control objects
    exe = build_with_books(ctx, 'ctl')
    cc = []
    for _ in range(600 if ctx.quick else 10000):
        ops = []
        body = []
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            if r < .3:
                body.append('decode %d %s' % (rng.randrange(2), control.hx(control.rand_frame(rng))))
            elif r < .5:
                body.append('set_type %x' % rng.choice([1, 2, 3, 4, 5, 9]))
            elif r < .75:
                body.append('add ' + control.hx(control.rand_ct(rng)))
            elif r < .85:
                body.append('reset')
            else:
                body.append(rng.choice(['size 1', 'encode 0 200', 'num', 'get 0', 'match 61']))
        if rng.random() < .5:   # identical rounds
            ops = (body + ['reset', 'mark']) * rng.choice([4, 9])
        else:
            ops = body
        cc.append(ops)
    parts = [cc[k::NCPU] for k in range(NCPU)]
    for part, (tr, crashes) in zip(parts, run_parallel(lambda p: control.run_cases(ctx, exe, p), parts)):
        for k, op, err in crashes:
            if control.run_cases(ctx, exe, [part[k]])[1]:
                return crash('control object', '\n'.join(part[k]), err)
        for t in tr:
            ev = [dict(e=e['e'], k='', null=e.get('null', True), live=e['live']) for e in t['ev'] if 'e' in e]
            add('ctl', '\n'.join(part[t['id']]), ev)

    for where in ('io', 'sock', 'init', 'file', 'obj', 'ctl'):
        n = [i for i, c in cases.items() if c[0] == where]
        ctx.extra[where + '_runs'] = len(n)
        if not n:
            raise CheckError('no books from ' + where)
        ctx.sample(dict(where=where, ev=traces[n[len(n) // 2]]['ev'][:30]))
    uniq, seen = [], set()
    for t in traces:
        k = json.dumps(t['ev'])
        if k not in seen:
            seen.add(k)
            uniq.append(t)
    ctx.extra.update(runs=len(traces), distinct_books=len(uniq), refused=sum(e['e'] == 'refuse' for t in traces for e in t['ev']),
                     rounds=sum(e['e'] == 'mark' for t in traces for e in t['ev']), destroyed=sum(e['e'] == 'gone' for t in traces for e in t['ev']))
    bad = validate(ctx, 'LedgerTrace', uniq)
    if bad:
        t, l, out = bad
        where, text = cases[t['id']]
        ctx.violate('rules broken at event %d (%s): %s' % (l, where, t['ev'][l - 1]), {'case.txt': text, 'trace.json': t, 'tlc.txt': out[-4000:]})
