"""U01: the command lines of fstrm_capture, fstrm_replay and fstrm_dump."""
import multiprocessing, select, shutil, signal, time
from progdrv import *

FLAG = dict(help='h', debug='d', localtime=None, gmtime=None)
OPTS = dict(capture=dict(type='t', unix='u', tcp='a', port='p', write='w', split='s', maxconns='c', buffersize='b'),
            replay=dict(type='t', unix='u', tcp='a', port='p', read='r'))
LONG = dict(read='read-file')
SIZES = [40, 100, 300000]
CONNS = [0, 1, 2, 3, 5, 256, 257, 65536, 1000000]
BUFS = [0, 64, 100, 99, 400000, 65536, 65600, 262144, 299999, 300000, 300001, 1 << 24, 1 << 30]
SPLITS = [0, 10, 10, 1, 9, 11, 266, 3600, 65546, 1 << 24]
T0 = 1000000      # 13:46:40 UTC, 18:46:40 local
BADPORT = ['65536', '65536', '70000', '99999999999999999999', 'x', 'http', '4294967297'] + ['near'] * 6
BADADDR = ['localhost', '1.2.3', '300.1.1.1', 'x', ':::1', '*'] + ['near'] * 4


def it(o, v=0, sp=None):
    return dict(o=o, v=v, sp=sp or 'short')


def words(rng, prog, items, val):
    """The command line for the items."""
    out = []
    for k, i in enumerate(items):
        o, sp = i['o'], i['sp']
        if out and o == 'debug' == items[k - 1]['o'] and sp == 'short' == items[k - 1]['sp'] and rng.random() < .5:
            out[-1] += 'd'
        elif o == 'word':
            out.append(val(i))
        elif o == 'unknown':
            out.append(rng.choice(['--nonsense', '-Z', '-Y', '--bogus=3', '--x-unix']))
        elif o in FLAG:
            out.append('--' + o if sp == 'long' or FLAG[o] is None else '-' + FLAG[o])
        else:
            short, long = '-' + OPTS[prog][o], '--' + LONG.get(o, o)
            if sp == 'eq':
                out.append(long + '=' + val(i))
            elif sp == 'missing':
                out.append(rng.choice([short, long]))
            else:
                out += [short if sp == 'short' else '--read' if sp == 'abbr' else long, val(i)]
    return out


def free_port():
    s = socket.socket()
    s.bind((loopback(), 0))
    p = s.getsockname()[1]
    s.close()
    return p


def values(rng, prog, items, d, port):
    # the READY frame that offers both fits into a control frame, and into the smallest buffer
    small = any(i['o'] == 'buffersize' for i in items)
    names = {'A': rng.choice(['protobuf:dnstap.Dnstap', 'a', 'x=y', 'two words', '=', 'A%s'] + ['n' * 256] * (not small)), 'B': rng.choice(['other', 'longer type', 'b='] + ['B' * 200] * (not small))}

    def bad(l):
        r = rng.choice(l)
        if r != 'near':
            return r
        if l is BADADDR:      # almost the good one
            return loopback() + rng.choice(['x', ' ', ':80', '/8', '.1'])
        return rng.choice(['%dx', '%d ', '%d/tcp', '%d.', '%d,1']) % port if rng.random() < .6 else str(port + rng.choice([1 << 16, 1 << 17, 1 << 32]))

    def val(i):
        o, v = i['o'], i['v']
        if o == 'type':
            return names[v]
        if o == 'unix':
            return d + '/u' if v == 'ok' else d + '/' + 'u' * (rng.choice([107, 108, 109, 200]) - len(d))
        if o == 'tcp':
            return loopback() if v == 'ok' else bad(BADADDR)
        if o == 'port':
            return str(port) if v == 'ok' else bad(BADPORT)
        if o == 'write':
            return 'o/f%H%M%S' if v == 'file' else '-'
        if o == 'read':
            return 'f%d' % v
        if o == 'word':
            return str(v) if prog != 'dump' else 'w%s' % v
        return str(v)
    return names, val


def frame(n, k):
    return w32(n - 4) + bytes((k * 7 + j * 3) % 251 for j in range(n - 4))


def crashed(rc, err):
    return 'exit status %d: %s' % (rc, err.decode('latin1')[-3000:]) if rc in (97, 99) or rc < 0 and rc != -signal.SIGPIPE else None


def run_capture(exe, d, s):
    rng = random.Random(s['seed'])
    items = s['items']
    port = free_port()
    names, val = values(rng, 'capture', items, d, port)
    os.makedirs(d + '/o')
    u = socket.socket(socket.AF_UNIX)      # of an earlier run
    u.bind(d + '/u')
    u.close()
    ino = os.stat(d + '/u').st_ino
    cand = {'plain': ['f%H%M%S'], 'utc': ['f134640', 'f134650'], 'local': ['f184640', 'f184650']}
    for fs in cand.values():
        for f in fs:
            with open(d + '/o/' + f, 'wb') as h:
                h.write(b'old')
    tty = any(i['o'] == 'write' and i['v'] == 'tty' for i in items)
    master = None
    if tty:
        master, out = os.openpty()
    else:
        out = os.open(d + '/stdout', os.O_CREAT | os.O_WRONLY, 0o600)
    argv = words(rng, 'capture', items, val)

    def changed():
        r = {}
        for f in os.listdir(d + '/o'):
            with open(d + '/o/' + f, 'rb') as h:
                b = h.read()
            if b != b'old':
                r[f] = b
        if not tty:
            with open(d + '/stdout', 'rb') as h:
                b = h.read()
            if b:
                r['std'] = b
        elif select.select([master], [], [], 0)[0]:
            try:
                b = os.read(master, 65536)
            except OSError:      # closed at the other end
                b = b''
            if b:
                r['std'] = b
        return r
    ev = [dict(e='cmd', prog='capture', items=items)]
    socks, what = [], None
    pr = Prog(exe, argv, stdout=out, time=T0, tz='XXX-5', cwd=d)
    os.close(out)
    try:
        if not pr.alive:
            what = crashed(pr.rc, pr.err)
            try:
                same = os.stat(d + '/u').st_ino == ino
            except OSError:
                same = False
            ev.append(dict(e='refused', rc=pr.rc, touched=bool(changed()) or not same))
            return argv, ev, what

        def settle():
            for _ in range(4):
                if pr.alive:
                    pr.cmd(b'g')
                time.sleep(s.get('wait', .002))

        def connect(how):
            try:
                if how == 'unix':
                    c = socket.socket(socket.AF_UNIX)
                    c.connect(d + '/u')
                else:
                    c = socket.create_connection((loopback(), port))
                c.setblocking(False)
                socks.append(c)
                return c
            except OSError:
                return None

        def recv(c):
            b = b''
            try:
                while True:
                    x = c.recv(65536)
                    if not x:
                        break
                    b += x
            except OSError:
                pass
            return b
        first = {h: connect(h) for h in ('unix', 'tcp')}
        at = [h for h in first if first[h]]
        did = dict(at='+'.join(at), ct='?', name='?', stored=[], served=0, files=0)
        if at:
            cl = [first[at[0]], connect(at[0]), connect(at[0])]
            for c in cl:
                if c:
                    c.sendall(ctl(4, [names['A'].encode(), names['B'].encode()]))
            settle()
            got = [recv(c) if c else b'' for c in cl]
            ok = {k: ctl(1, [n.encode()]) for k, n in names.items()}
            did['served'] = sum(g in ok.values() for g in got)
            for k in ok:
                if got[0] == ok[k]:
                    did['ct'] = k
            c = cl[0]
            if did['ct'] != '?':
                c.sendall(ctl(2, [names[did['ct']].encode()]))
                data = b''.join(frame(n, k) for k, n in enumerate(SIZES))
                t = time.time()
                while data and pr.alive and time.time() - t < 20:
                    try:
                        data = data[c.send(data):]
                    except BlockingIOError:
                        pr.cmd(b'g')
                settle()
                if pr.alive:
                    pr.cmd(b't%d\n' % (T0 + 10))
                c.sendall(frame(20, 9))
                settle()
                c.sendall(ctl(3))
                settle()
        if pr.alive:
            pr.cmd(b'k15\n')
        what = crashed(pr.rc, pr.err) if not pr.alive else 'it does not end'
        r = changed()
        kinds = {k for k, fs in list(cand.items()) + [('std', ['std'])] for f in fs if f in r}
        did['name'] = '+'.join(sorted(kinds))
        did['files'] = len(r)
        body = b''
        for f in sorted(r):
            h = ctl(2, [names.get(did['ct'], '').encode()])
            if not (r[f].startswith(h) and r[f].endswith(ctl(3))):
                did['stored'].append(-1)
            body += r[f][len(h):-12]
        for k, n in list(enumerate(SIZES)) + [(9, 20)]:
            x = frame(n, k)
            if body.startswith(x):
                body = body[len(x):]
                if k != 9:
                    did['stored'].append(n)
        if body:
            did['stored'].append(-2)
        ev.append(dict(e='ran', did=did, rc=pr.rc if pr.rc is not None else -1))
    except Hang:
        what = 'hangs'
    except OSError as x:
        ev.append(dict(e='ran', did=dict(at='?', ct='?', name='?', stored=[], served=0, files=0), rc=-1, why=str(x)))
    finally:
        for c in socks:
            c.close()
        if master is not None:
            os.close(master)
        pr.done()
    return argv, ev, what


def run_replay(exe, d, s):
    rng = random.Random(s['seed'])
    items = s['items']
    os.makedirs(d)
    lu, lt = socket.socket(socket.AF_UNIX), socket.socket()
    lu.bind(d + '/u')
    lu.listen()
    lt.bind((loopback(), 0))
    lt.listen()
    names, val = values(rng, 'replay', items, d, lt.getsockname()[1])
    for k in (1, 2, 3, 4):
        with open(d + '/f%d' % k, 'wb') as h:
            h.write(ctl(2, [names['B' if k == 4 else 'A'].encode()]) + w32(5) + b'file%d' % k + ctl(3))
    argv = words(rng, 'replay', items, val)
    ev = [dict(e='cmd', prog='replay', items=items)]
    what, c, at = None, None, ''
    p = subprocess.Popen([exe] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), cwd=d)
    try:
        t = time.time()
        while c is None and time.time() - t < 30:
            l = select.select([lu, lt], [], [], .03)[0]
            if l:
                at = 'unix' if l[0] is lu else 'tcp'
                c = l[0].accept()[0]
            elif p.poll() is not None and not select.select([lu, lt], [], [], 0)[0]:
                break
        did = dict(at=at, ct='?', sent=[])
        if c is not None:
            c.settimeout(20)
            rx, state = b'', 0
            while True:
                f = None
                if len(rx) >= 8:
                    n = int.from_bytes(rx[:4], 'big')
                    n = n + 4 if n else 8 + int.from_bytes(rx[4:8], 'big')
                    if len(rx) >= n:
                        f, rx = rx[:n], rx[n:]
                if f is None:
                    x = c.recv(65536)
                    if not x:
                        break
                    rx += x
                    continue
                if f[:4] != bytes(4):
                    did['sent'].append(int(f[8:9]) if f[4:8] == b'file' and len(f) == 9 and state == 1 else -1)
                elif f[8:12] == w32(4):
                    for k in names:
                        if f == ctl(4, [names[k].encode()]):
                            did['ct'] = k
                            c.sendall(ctl(1, [names[k].encode()]))
                    if did['ct'] == '?':
                        break
                elif f[8:12] == w32(2):
                    state = 1 if f == ctl(2, [names[did['ct']].encode()]) else -1
                elif f[8:12] == w32(3):
                    c.sendall(ctl(5))
                    c.shutdown(socket.SHUT_WR)
            c.close()
        _, err = p.communicate(timeout=30)
        what = crashed(p.returncode, err)
        if c is None:
            ev.append(dict(e='refused', rc=p.returncode, touched=False))
        else:
            ev.append(dict(e='ran', did=did, rc=p.returncode))
    except (subprocess.TimeoutExpired, socket.timeout):
        what = 'hangs'
    except OSError as x:
        ev.append(dict(e='ran', did=dict(at=at, ct='?', sent=[]), rc=-1, why=str(x)))
    if p.poll() is None:
        p.kill()
        p.wait()
    p.stderr.close()
    lu.close()
    lt.close()
    return argv, ev, what


def run_dump(exe, d, s):
    rng = random.Random(s['seed'])
    os.makedirs(d)
    content = ctl(2, [b'type']) + w32(5) + b'hello' + ctl(3)
    ws = ['w%d' % k for k in range(len(s['items']))]
    if ws:
        with open(d + '/w0', 'wb') as h:
            h.write(content)
    p = subprocess.Popen([exe] + ws, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=d)
    what = None
    try:
        out, err = p.communicate(timeout=30)
        what = crashed(p.returncode, err)
    except subprocess.TimeoutExpired:
        p.kill()
        return ws, [], 'hangs'
    fs = {}
    for f in os.listdir(d):
        with open(d + '/' + f, 'rb') as h:
            fs[f] = h.read()
    shown, copied = b'"hello"' in out, fs.get('w1') == content
    ev = [dict(e='cmd', prog='dump', items=s['items'])]
    if not shown and not copied and p.returncode:
        ev.append(dict(e='refused', rc=p.returncode, touched=set(fs) - {'w0'} != set()))
    else:
        ev.append(dict(e='ran', did=dict(shown=shown, copied=copied), rc=p.returncode))
    return ws, ev, what


RUN = dict(capture=run_capture, replay=run_replay, dump=run_dump)


def worker(a):
    exes, d, part = a
    out = []
    for i, s in part:
        dd = '%s/%d' % (d, i)
        out.append((i,) + RUN[s['prog']](exes[s['prog']], dd, s))
        shutil.rmtree(dd, True)
        if out[-1][3]:
            break
    return out


# ---------------------------------------------------------------- command lines
def respell(rng, prog, items):
    for i in items:
        if i['o'] in FLAG:
            i['sp'] = 'long' if FLAG[i['o']] is None else rng.choice(['short', 'long'])
        elif i['o'] == 'word':
            i['sp'] = 'short'
        elif i['o'] == 'unknown':
            i['sp'] = 'long'
        elif i['sp'] != 'missing':
            i['sp'] = rng.choice(['short', 'long', 'eq'] + (['abbr'] if i['o'] == 'read' else []))
    return items


def any_item(rng, prog):
    if prog == 'dump':
        return it('word', 'x')
    o = rng.choice(list(OPTS[prog]) * 3 + ['help', 'unknown', 'word'] + (['debug', 'localtime', 'gmtime'] * 2 if prog == 'capture' else []))
    pick = dict(type='AB', unix=['ok', 'ok', 'long'], tcp=['ok', 'ok', 'bad'], port=['ok', 'bad'], write=['file', 'file', 'std', 'tty'], split=SPLITS, maxconns=CONNS,
                buffersize=BUFS, read=[1, 2, 3, 4, 5], word=['x', 'stray', '0'])
    return it(o, rng.choice(pick[o]) if o in pick else 0)


def rand_items(rng, prog):
    if prog == 'dump':
        return [it('word', 'x') for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    items = [it('type', rng.choice('AAB'))]
    items += [it('unix', 'ok')] if rng.random() < .55 else [it('tcp', 'ok'), it('port', 'ok')]
    if prog == 'capture':
        items.append(it('write', rng.choice(['file', 'file', 'file', 'std', 'tty'] if rng.random() < .3 else ['file', 'file', 'std'])))
        r = rng.random()
        if r < .6:
            items.append(it(rng.choice(['localtime', 'gmtime'])))
            if rng.random() < .5:
                items.append(it('split', rng.choice(SPLITS)))
        for o, l in (('maxconns', CONNS), ('buffersize', BUFS)):
            if rng.random() < .4:
                items.append(it(o, rng.choice(l)))
        items += [it('debug')] * rng.choice([0, 0, 1, 3, 6])
    else:
        items += [it('read', rng.choice([1, 2, 3, 4, 5])) for _ in range(rng.choice([1, 2, 3, 5]))]
    defect = rng.random()
    if defect < .25:      # one thing wrong with it
        i = rng.choice(items)
        o, v = rng.choice([('unix', 'long'), ('tcp', 'bad'), ('port', 'bad'), ('write', 'tty'), ('write', 'std'), ('split', 10), ('localtime', 0), ('gmtime', 0), ('drop', 0), ('drop', 0)])
        if o == 'drop':
            items.remove(i)
        elif o in [i['o'] for i in items]:
            for i in items:
                if i['o'] == o:
                    i['v'] = v
        elif o in OPTS[prog] or o in FLAG and prog == 'capture':
            items.append(it(o, v))
    rng.shuffle(items)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if defect > .25 else 0):
        r = rng.random()
        k = rng.randrange(len(items)) if items else 0
        if r < .4 and items:
            del items[k]
        elif r < .8:
            items.insert(k, any_item(rng, prog))
        elif items:
            items[k] = any_item(rng, prog)
    items = [dict(i) for i in items]
    if items and rng.random() < .06 and items[-1]['o'] in OPTS[prog]:
        items[-1]['sp'] = 'missing'
    return respell(rng, prog, items)


def dcfg(what='INVARIANT NoBad', **k):
    d = dict(dict(Prog='"replay"', MaxItems=3, Opts='{}', Spell='{"short", "eq", "missing"}', Gen='FALSE', Mutation='"none"'), **k)
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\nCONSTANTS %s\n' % (what, ' '.join('%s = %s' % x for x in d.items()))


SHORT = '{"short"}'
CORE = '{"type", "unix", "write", "split", "gmtime", "localtime", "maxconns"}'
MUT = dict(lenient=dict(), noeq=dict(), words=dict(), noxor=dict(MaxItems=5, Spell=SHORT, Opts='{"type", "unix", "tcp", "port", "read"}'), noport=dict(), anyport=dict(MaxItems=4, Spell=SHORT), noread=dict(), lastfile=dict(MaxItems=4, Spell=SHORT),
           nomissing=dict(MaxItems=4, Opts='{"type", "unix", "read"}'), notype=dict(Prog='"capture"', Spell=SHORT), stdsplit=dict(Prog='"capture"', MaxItems=5, Spell=SHORT, Opts=CORE),
           splitplain=dict(Prog='"capture"', MaxItems=4, Spell=SHORT, Opts=CORE), swap=dict(Prog='"capture"', MaxItems=4, Spell=SHORT, Opts=CORE), nolimit=dict(Prog='"capture"', MaxItems=4, Spell=SHORT, Opts=CORE),
           early=dict(Prog='"capture"', Spell=SHORT))
for m in ('lenient', 'words', 'noport'):
    MUT[m].update(MaxItems=5 if m == 'noport' else 4, Spell=SHORT)
MUT['noport'].update(MaxItems=4)


def check(ctx):
    q = ctx.quick
    muts = sorted(MUT) if not q else ctx.rng.sample(sorted(MUT), 4)
    check_design(ctx, 'Cmd', dcfg(), [(m, dcfg(Mutation='"%s"' % m, **MUT[m])) for m in muts])
    check_design(ctx, 'Cmd', dcfg(Prog='"capture"', Spell=SHORT, MaxItems=3 if q else 4))
    check_design(ctx, 'Cmd', dcfg(Prog='"capture"', Spell=SHORT, MaxItems=5 if q else 6, Opts='{"type", "unix", "write", "split", "gmtime"}'))
    check_design(ctx, 'Cmd', dcfg(Prog='"dump"', MaxItems=4))
    if not q:
        check_design(ctx, 'Cmd', dcfg(MaxItems=4))
        check_design(ctx, 'Cmd', dcfg(MaxItems=5, Spell=SHORT))
    rng = ctx.rng
    cases = []
    for prog, o in (('capture', '{"type", "unix", "tcp", "port", "write", "split", "gmtime", "localtime"}'), ('replay', '{}')):
        r = tlc(ctx, 'Cmd', dcfg('INVARIANT Emit', Prog='"%s"' % prog, MaxItems=7, Opts=o, Gen='TRUE'), args=['-simulate', 'num=%d' % (150 if q else 2000), '-depth', '40', '-seed', str(rng.randrange(1 << 30))], workers=1, name='gen' + prog)
        for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M):
            cases.append(dict(prog=prog, items=json.loads(m.group(1).replace('\\"', '"'))))
    if not cases:
        raise CheckError('the specification generated no command lines')
    ctx.extra['spec_generated'] = len(cases)
    cases += [dict(prog='dump', items=[it('word', 'x') for _ in range(n)]) for n in range(6)]
    for prog, n in (('capture', 900), ('replay', 500)):
        cases += [dict(prog=prog, items=rand_items(rng, prog)) for _ in range(n if q else 15 * n)]
    for s in cases:
        s['seed'] = rng.randrange(1 << 40)
    exes = {}
    for e in run_parallel(lambda n: build_programs(ctx, [n]), ['capture', 'replay', 'dump']):
        exes.update(e)
    todo = list(enumerate(cases))
    parts = [todo[k::NCPU * 4] for k in range(NCPU * 4)]
    with multiprocessing.Pool(NCPU) as pool:
        res = sorted((r for p in pool.map(worker, [(exes, ctx.scratch, p) for p in parts], chunksize=1) for r in p), key=lambda r: r[0])
    for i, argv, ev, what in res:
        if what:
            a = RUN[cases[i]['prog']](exes[cases[i]['prog']], ctx.scratch + '/again', cases[i])[2]
            if a:
                ctx.violate('fstrm_%s %s' % (cases[i]['prog'], a), {'argv.json': argv, 'scenario.json': cases[i], 'trace.json': ev})
                return
            raise CheckError('fstrm_%s: %s (not repeated)' % (cases[i]['prog'], what))
    traces = [dict(id=i, ev=ev) for i, argv, ev, what in res]
    ctx.extra.update(runs=len(traces), refused=sum(t['ev'][-1]['e'] == 'refused' for t in traces), ran=sum(t['ev'][-1]['e'] == 'ran' for t in traces))
    ctx.sample(dict(argv=res[-1][1], ev=res[-1][2]))
    # delivery over TCP takes unknown time: what is not repeated with more patience is no answer
    for n in range(6):
        bad = validate(ctx, 'CmdTrace', traces)
        if not bad:
            return
        i = bad[0]['id']
        s = dict(cases[i], wait=.1)
        argv, ev, what = RUN[s['prog']](exes[s['prog']], ctx.scratch + '/slow', s)
        shutil.rmtree(ctx.scratch + '/slow', True)
        b = None if what else validate(ctx, 'CmdTrace', [dict(id=i, ev=ev)])
        if what or b:
            ctx.violate('rules broken: %s%s' % (what or '', str(ev)[:1500]), {'argv.json': argv, 'scenario.json': s, 'trace.json': ev, 'tlc.txt': '' if what else b[2][-5000:]})
            return
        ctx.extra.setdefault('repeated', []).append(str(bad[0]['ev'][-1])[:300])
        traces = [t for t in traces if t['id'] != i]
    raise CheckError('many runs that do not repeat')
