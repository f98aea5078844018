"""P07: what the programs hold on to: memory and descriptors of fstrm_capture, fstrm_replay, fstrm_dump."""
import multiprocessing, threading
from progdrv import *

PER_INPUT = 16       # bytes that fstrm_replay keeps of each file name (it grows their array by 10 at a time)


def settle(pr, c=None, data=b''):
    """Send data; let the program do all it can (what it does not take is dropped: a client that waits for its turn)."""
    stuck = 0
    while data and pr.alive and stuck < 2:
        try:
            data = data[c.send(data):]
            stuck = 0
        except BlockingIOError:
            pr.cmd(b'g')
            stuck += 1
        except OSError:
            return
    if pr.alive:
        pr.cmd(b'g')


def measure(pr):
    pr.ctl.sendall(b'm')
    b = b''
    while not b.endswith(b'\n'):
        x = pr.ctl.recv(1)
        if not x:
            raise Hang()
        b += x
    pr.alive = pr.idle()
    return [int(x) for x in b.split()]


def gone(c):
    try:
        while True:
            if not c.recv(65536):
                return True
    except BlockingIOError:
        return False
    except OSError:
        return True


def run_capture(exe, d, s):
    g = s['cfg']
    ct = g['ct'].encode()
    buf = g['buf'] or 262144
    os.makedirs(d)
    args = ['-t', g['ct'], '-u', 's', '-w', '-' if g['std'] else 'f%s' if g['pat'] else 'f'] + ['-b', str(buf)] * (g['buf'] > 0) + ['-d'] * g['dbg']
    args += ['--gmtime'] * g['pat'] + (['-s', str(g['split'])] if g['split'] else []) + (['-c', str(g['maxc'])] if g['maxc'] else [])
    ev = [dict(e='cfg', slack=65536, per=4 * buf + 65536)]
    now, what, cl = 1000000, None, {}
    pr = Prog(exe, args, time=now, cwd=d)

    def see():
        for k in [k for k, c in cl.items() if gone(c['s'])]:
            cl.pop(k)['s'].close()
            if pr.alive:
                pr.cmd(b'g')
        if not pr.alive:
            return None
        mem, fds = measure(pr)
        ev.append(dict(e='rest', fds=fds, mem=mem, live=len(cl)))
        return mem, fds

    def hello(c, upto, r):
        """Advance the handshake: 1 READY sent, 2 START sent."""
        b = b''
        if c['st'] < 1 <= upto:
            b += ctl(4, r.choice([[], [ct], [b'other', ct, b'third']]))[c['cut']:]
            c['cut'] = 0
        if c['st'] < 2 <= upto:
            b += ctl(2, [ct])
        c['st'] = max(c['st'], upto)
        return b
    try:
        if not pr.alive:
            return args, ev, 'does not start: %r' % pr.err[-500:]
        see()
        for rnd in range(1, s['rounds'] + 1):
            r = random.Random(s['seed'])
            for k, i in [tuple(x) for x in s['ops']] + [('end', 0)]:
                c = cl.get(i)
                if k == 'conn':
                    if c is None:
                        x = socket.socket(socket.AF_UNIX)
                        x.connect(d + '/s')
                        x.setblocking(False)
                        cl[i] = c = dict(s=x, st=0, left=b'', cut=0)
                        m = r.random()
                        if m < .2:
                            settle(pr)
                        elif m < .4:       # part of the first frame
                            c['st'], b = 0, ctl(4, [])
                            c['cut'] = r.randrange(1, len(b))
                            settle(pr, x, b[:c['cut']])
                            c['st'] = -1
                        else:
                            settle(pr, x, hello(c, r.choice([1, 2, 2]), r))
                elif k in ('usr1', 'hup'):
                    pr.cmd(b'%s%d\n' % (r.choice([b'k', b'r']), signal.SIGUSR1 if k == 'usr1' else signal.SIGHUP))
                elif k == 'time':
                    now += r.choice([1, g['split'] or 1])
                    pr.cmd(b't%d\n' % now)
                elif k == 'end':
                    for i in list(cl):
                        cl.pop(i)['s'].close()
                        if r.random() < .5:
                            settle(pr)
                    settle(pr)
                elif c is None:
                    r.random()
                elif k == 'fin':
                    del cl[i]
                    c['s'].close()
                    settle(pr)
                else:
                    b = b''
                    if c['st'] < 0:
                        b += ctl(4, [])[c['cut']:]
                        c['st'], c['cut'] = 1, 0
                    stage = 2 if k != 'bad' else r.choice([0, 1, 2, 2])
                    b += hello(c, stage, r) + c['left']
                    c['left'] = b''
                    top = min(buf - 4, r.choice([1, 20, 1000, 5000, buf]))
                    if k == 'good':
                        for _ in range(r.choice([1, 2, 5])):
                            n = r.randrange(1, top + 1)
                            b += w32(n) + bytes(n)
                    elif k == 'part':
                        b += w32(top) + bytes(top)
                        n = r.randrange(1, min(len(b), top + 3) + 1) if r.random() < .8 else 1
                        b, c['left'] = b[:-n], b[-n:]
                    elif k == 'big':
                        n = buf + r.choice([-3, 0, 1, buf, 5 * buf, 100000])
                        m = r.choice([n, n, n // 2, n - 1, 0])
                        b += w32(n) + bytes(m)
                        c['left'] = bytes(n - m)
                    elif k == 'stop':
                        b += ctl(3)
                    elif k == 'bad':
                        b += r.choice([ctl(1, [ct]), ctl(5), ctl(4, [b'nothing of ours']) if c['st'] != 0 or True else b'', w32(0) + w32(r.choice([0, 3, 513, 1 << 31])), ctl(77), ctl(2, [b'x', b'y']),
                                       w32(0) + w32(12) + w32(4) + w32(1) + w32(1 << 20)] + ([w32(3) + b'abc'] if c['st'] < 2 else []))
                    settle(pr, c['s'], b)
                m = see()
                if m is None:
                    break
            if not pr.alive:
                break
            ev.append(dict(e='round', n=rnd, fds=m[1], mem=m[0]))
        if pr.alive:
            pr.cmd(b'k15\n')
            if pr.alive:
                what = 'it does not end'
        if not what and pr.rc != 0:
            what = 'exit status %s: %s' % (pr.rc, pr.err.decode('latin1')[-3000:])
    except Hang:
        what = 'hangs'
    finally:
        for c in cl.values():
            c['s'].close()
        pr.done()
        shutil.rmtree(d, True)
    return args, ev, what


def whole(exe, d, args):
    """A whole run: what it held at the end."""
    r, w = os.pipe()
    p = subprocess.Popen([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, pass_fds=[w], env=env(FSTRMV_MEM=w))
    os.close(w)
    return p, r


def finish(p, r):
    try:
        err = p.communicate(timeout=40)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        os.close(r)
        return None, 'hangs'
    b = os.read(r, 100)
    os.close(r)
    if p.returncode in (97, 99) or p.returncode < 0:
        return None, 'exit status %d: %s' % (p.returncode, err.decode('latin1')[-3000:])
    return [int(x) for x in b.split()], None


def receiver(ls, ct):
    """Accepts one session and follows it to its end."""
    try:
        c = ls.accept()[0]
        c.settimeout(20)
        b = b''
        while True:
            x = c.recv(1 << 16)
            if not x:
                break
            b = (b + x)[-4096:]
            if b.startswith(ctl(4, [ct])):
                c.sendall(ctl(1, [ct]))
                b = b''
            if b.endswith(ctl(3)):
                c.sendall(ctl(5))
        c.close()
    except OSError:
        pass


def run_replay(exe, d, s):
    os.makedirs(d)
    r = random.Random(s['seed'])
    ct = b'type'
    fr = b''.join(w32(n) + bytes(n) for n in (r.randrange(1, 40) for _ in range(r.choice([1, 3, 20]))))
    body = dict(good=ctl(2, [ct]) + fr + ctl(3), other=ctl(2, [r.choice([b'typ', b'types', b''])]) + fr + ctl(3), damaged=(ctl(2, [ct]) + fr + ctl(3))[:-r.randrange(1, 13 + len(fr))], empty=b'',
                nostart=w32(5) + b'hello', nothing=ctl(2, [ct]) + ctl(3), notype=ctl(2) + fr + ctl(3))
    for k, b in body.items():
        with open('%s/%s' % (d, k), 'wb') as f:
            f.write(b)
    ls = socket.socket(socket.AF_UNIX)
    ls.bind(d + '/s')
    ls.listen()
    ls.settimeout(20)
    ev = [dict(e='cfg', slack=80, per=PER_INPUT)]
    args, what = [], None
    for rep in s['reps']:
        fs = s['ops'] * rep
        args = ['-t', 'type', '-u', 's'] + [x for k in fs for x in ('-r', k)]
        t = threading.Thread(target=receiver, args=(ls, ct))
        t.start()
        m, what = finish(*whole(exe, d, args))
        t.join()
        if what:
            break
        ev.append(dict(e='ended', n=len(fs), mem=m[0], fds=m[1]))
    ls.close()
    shutil.rmtree(d, True)
    return args, ev, what


def run_dump(exe, d, s):
    os.makedirs(d)
    r = random.Random(s['seed'])
    sizes = [r.choice([1, 5, 300, 5000]) for _ in range(4)]
    end = r.choice([ctl(3), b'', w32(9) + b'x', w32(0) + w32(1), ctl(77) + ctl(3)])
    args = ['i'] + ['o'] * r.choice([0, 1])
    ev, what = [dict(e='cfg', slack=0, per=0)], None
    for rep in s['reps']:
        with open(d + '/i', 'wb') as f:
            f.write(ctl(2, [b'type'] * r.choice([1])) + b''.join(w32(n) + bytes(n) for n in sizes) * rep + end)
        m, what = finish(*whole(exe, d, args))
        if what:
            break
        ev.append(dict(e='ended', n=len(sizes) * rep, mem=m[0], fds=m[1]))
    shutil.rmtree(d, True)
    return args, ev, what


RUN = dict(capture=run_capture, replay=run_replay, dump=run_dump)


def worker(a):
    exes, d, part = a
    out = []
    for i, s in part:
        out.append((i,) + RUN[s['prog']](exes[s['prog']], '%s/%d' % (d, i), s))
        if out[-1][3]:
            break
    return out


def config(rng):
    g = dict(ct='type', buf=rng.choice([0, 0, 100, 1000, 5000, 70000]), dbg=rng.choice([0, 0, 1, 3, 5]), std=rng.random() < .15, pat=False, split=0, maxc=rng.choice([0, 0, 0, 1, 2]))
    if not g['std'] and rng.random() < .5:
        g['pat'] = True
        g['split'] = rng.choice([0, 1, 1, 3])
    return g


def sampled(rng):
    n = rng.choice([1, 2, 3, 5])
    w = [rng.random() for _ in range(10)]
    ops = []
    for _ in range(rng.choice([2, 5, 10, 25])):
        k = rng.choices(['conn', 'good', 'part', 'big', 'bad', 'stop', 'fin', 'usr1', 'hup', 'time'], w)[0]
        ops.append([k, rng.randrange(1, n + 1) if k not in ('usr1', 'hup', 'time') else 0])
        if k in ('good', 'part', 'big', 'bad', 'stop') and rng.random() < .6:
            ops.insert(-1, ['conn', ops[-1][1]])
    return ops


def dcfg(what='INVARIANTS NoBad Exact', **k):
    d = dict(dict(NConn=2, NOps=4, Rounds=3, Buf=4, Tool='FALSE', Gen='FALSE', Mutation='"none"'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\nCONSTANTS %s\n' % (what, ' '.join('%s = %s' % x for x in d.items()))


MUT = {m: dict() for m in 'leakframe leakctl leaksock leakstop leakpart leakskip leakname leakfile leakhup'.split()}
MUT['hoard'] = dict(NOps=5, NConn=1)
MUT.update({m: dict(Tool='TRUE', NOps=3) for m in 'leakgood leakother leakdamaged leakempty other damaged'.split()})


def check(ctx):
    q = ctx.quick
    muts = sorted(MUT) if not q else ctx.rng.sample(sorted(MUT), 4)
    check_design(ctx, 'Endure', dcfg(NOps=4 if q else 5), [(m, dcfg('INVARIANT NoBad', Mutation='"%s"' % m, **MUT[m])) for m in muts])
    check_design(ctx, 'Endure', dcfg(NConn=1, NOps=6 if q else 7))
    check_design(ctx, 'Endure', dcfg(Tool='TRUE', NOps=4 if q else 6, Rounds=3))
    rng = ctx.rng
    cases = []
    for k, prog in ((dict(NOps=10, NConn=3, Rounds=1), 'capture'), (dict(NOps=6, Tool='TRUE', Rounds=1), 'replay')):
        r = tlc(ctx, 'Endure', dcfg('INVARIANT Emit', Gen='TRUE', **k), args=['-simulate', 'num=%d' % ((400 if q else 4000) if prog == 'capture' else 40 if q else 500), '-depth', '60', '-seed', str(rng.randrange(1 << 30))], workers=1, name='gen' + prog)
        for x in {m.group(1) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)}:
            cases.append(dict(prog=prog, ops=json.loads(x.replace('\\"', '"'))))
    if not cases:
        raise CheckError('the specification generated no scripts')
    cases.sort(key=lambda s: json.dumps(s))
    ctx.extra['spec_generated'] = len(cases)
    cases += [dict(prog='capture', ops=sampled(rng)) for _ in range(900 if q else 10000)]
    cases += [dict(prog='replay', ops=[rng.choice(['good', 'other', 'missing', 'damaged', 'empty', 'nostart', 'nothing', 'notype']) for _ in range(rng.choice([1, 1, 2, 4]))]) for _ in range(40 if q else 800)]
    cases += [dict(prog='dump') for _ in range(40 if q else 600)]
    for s in cases:
        s.update(seed=rng.randrange(1 << 40), cfg=config(rng), rounds=rng.choice([4, 4, 5, 8] if q else [4, 6, 10, 40]), reps=[1, 3, rng.choice([12, 40])])
    exes = {}
    for e in run_parallel(lambda n: build_programs(ctx, [n]), ['capture', 'replay', 'dump']):
        exes.update(e)
    todo = list(enumerate(cases))
    parts = [todo[k::NCPU * 4] for k in range(NCPU * 4)]
    with multiprocessing.Pool(NCPU) as pool:
        res = sorted((r for p in pool.map(worker, [(exes, ctx.scratch, p) for p in parts], chunksize=1) for r in p), key=lambda r: r[0])
    for i, argv, ev, what in res:
        if what:
            a = RUN[cases[i]['prog']](exes[cases[i]['prog']], ctx.scratch + '/again', cases[i])[2]
            if a:
                ctx.violate('fstrm_%s %s' % (cases[i]['prog'], a), {'argv.json': argv, 'scenario.json': cases[i], 'trace.json': ev})
                return
            raise CheckError('fstrm_%s: %s (not repeated)' % (cases[i]['prog'], what))
    traces = [dict(id=i, ev=ev) for i, argv, ev, what in res]
    ctx.extra.update(runs=len(traces), rests=sum(len(t['ev']) for t in traces), most_clients=max([e['live'] for t in traces for e in t['ev'] if e['e'] == 'rest']))
    ctx.sample(dict(argv=res[0][1], scenario=cases[0], ev=res[0][2][:20]))
    for n in range(6):      # what is not repeated is no answer
        bad = validate(ctx, 'EndureTrace', traces)
        if not bad:
            return
        i = bad[0]['id']
        argv, ev, what = RUN[cases[i]['prog']](exes[cases[i]['prog']], ctx.scratch + '/again', cases[i])
        b = None if what else validate(ctx, 'EndureTrace', [dict(id=i, ev=ev)])
        if what or b:
            ctx.violate('rules broken at event %d: %s%s' % (b[1] if b else 0, what or '', str(ev[:2] + (ev[:b[1]][-4:] if b else []))[:1200]), {'argv.json': argv, 'scenario.json': cases[i], 'trace.json': ev, 'tlc.txt': b[2][-5000:] if b else ''})
            return
        ctx.extra.setdefault('repeated', []).append(str(bad[0]['ev'][bad[1] - 1])[:300])
        traces = [t for t in traces if t['id'] != i]
    raise CheckError('many runs that do not repeat')
