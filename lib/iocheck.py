"""W01-W03, R01-R03, S01, S02, S04: reader and writer handles (IoDesign / IoRules / IoTrace)."""
from iodrv import *

ACCEPT, START, STOP, READY, FINISH = 1, 2, 3, 4, 5
WMUT = 'zerolen writeclosed leaveopen readyone noaccept firstonly anymatch startfirst dup getnull stale nostop anyfinish closeok'.split()
RMUT = 'reopen acceptall anystart nomax bigok nofwd getnull stale closeok leaveopen'.split()


def dcfg(role, bi, nct=2, ops=4, opens=2, reads=4, gen=False, mut='none', inv=True):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ('INVARIANT NoBad\nINVARIANT NoStuck\n' if inv else '') +
            ('INVARIANT Emit\n' if gen else '') + CONSTS +
            'CONSTANTS Role = "%s" Bi = %s NCts = %d MaxOps = %d MaxOpens = %d MaxReads = %d Gen = %s Mutation = "%s"\n'
            % (role, 'TRUE' if bi else 'FALSE', nct, ops, opens, reads, 'TRUE' if gen else 'FALSE', mut))


def design(ctx, roles):
    for role in roles:
        muts = WMUT if role == 'w' else RMUT
        if ctx.quick:
            muts = ctx.rng.sample(muts, 2)
        big = not ctx.quick
        check_design(ctx, 'IoDesign', dcfg(role, True, ops=(5 if role == 'w' else 4) + big, reads=3 + big),
                     [(role + '-' + m, dcfg(role, True, mut=m, reads=3)) for m in muts])
        check_design(ctx, 'IoDesign', dcfg(role, False, ops=4 + 2 * big, reads=3 + big))
        if big:
            check_design(ctx, 'IoDesign', dcfg(role, True, nct=0, ops=5))
            check_design(ctx, 'IoDesign', dcfg(role, True, nct=1, ops=5))


def from_hist(h, role, bi, nct, rng):
    """A behaviour of IoDesign as a script."""
    s = Script(role=role, bi=bi, cts=[b'a', b'b'][:nct], pays={1: payload(1, 9), 2: payload(2, 5), 3: b''}, conns=[], ops=[])
    if role == 'r':
        s['max'] = 512
    for c in h['conns']:
        toks = []
        for f in c['in']:
            if f['k'] == 'ctl':
                toks.append(dict(k='ctl', p=f['p']))
            elif f['k'] == 'junk':
                toks.append(dict(k='bigctl', n=rng.choice([513, 600, 65536 + 4, 0xffffffff])))
            else:
                n = f['len'][1]
                if n > 512 and rng.random() < .5:
                    toks.append(dict(k='data', id=100 + f['id'], b=b'', n=rng.choice([n, 0xffffffff, 1 << 20])))
                else:
                    toks.append(dict(k='data', id=100 + f['id'], b=payload(100 + f['id'], n)))
        d = dict(open=c['open'], close=c['close'], toks=toks, wfail=-1, inend=c['inend'] if c['inend'] != 'none' else 'stop')
        if c['inend'] != 'none' and rng.random() < .5:   # the transport ends within a frame
            toks.append(dict(k='ctl', p=ctl_payload(rng.choice([1, 2, 4, 5]), [b'a'])))
            d['cut'] = rng.randrange(1, len(tok_bytes(toks[-1])))
        if c['wfail']:
            d['wfail'] = sum(8 + len(t['p']) if t['k'] == 'ctl' else 4 + len(s['pays'].get(t['id'], b'')) for t in c['out']) + rng.choice([0, 0, 1, 4, 5])
        s['conns'].append(d)
    for op, a in h['ops']:
        if op == 'write':
            a = [3 if i == -1 else i for i in a]
            if len(a) == 1 and rng.random() < .5:
                op = 'write1'
        s['ops'].append([op] + list(a))
    return s


def generated(ctx, role, n):
    jobs = [(bi, nct, ctx.rng.randrange(1 << 30)) for bi in (True, False) for nct in (0, 1, 2)]

    def one(j):
        bi, nct, seed = j
        num = n // (5 if bi else 15) * (2 if nct == 2 else 1)
        r = tlc(ctx, 'IoDesign', dcfg(role, bi, nct, ops=7, opens=3, reads=6, gen=True, inv=False),
                args=['-simulate', 'num=%d' % num, '-depth', '90', '-seed', str(seed)], workers=1, heap='2g', name='gen%s%d%d' % (role, bi, nct))
        return [(json.loads(m.group(1).replace('\\"', '"')), bi, nct) for m in re.finditer(r'"SCRIPT (.*)"$', r.out, re.M)]
    out = [x for y in run_parallel(one, jobs) for x in y]
    if not out:
        raise CheckError('the specification generated no scripts')
    ctx.extra['spec_generated_scripts'] = ctx.extra.get('spec_generated_scripts', 0) + len(out)
    return [from_hist(h, role, bi, nct, ctx.rng) for h, bi, nct in out]


CTPOOL = [b'a', b'b', b'c', b'ab', b'', b'a\0', b'protobuf:dnstap.Dnstap', bytes(range(256)), bytes(range(255)) + b'\xfe', b'x' * 199 + b'y', b'\1' + bytes(range(1, 256)), b'x' * 200, b'y' * 100]


def rand_ctl(rng, ty, own):
    """A control frame that is probably the wanted one."""
    r = rng.random()
    if r < .82:
        pass
    elif r < .9:
        ty = rng.choice([1, 2, 3, 4, 5])
    else:
        k = rng.random()
        good = ctl_payload(ty, [b'a'])
        if k < .25:
            return dict(k='ctl', p=good[:rng.randrange(len(good))])
        if k < .5:
            return dict(k='ctl', p=good + bytes(rng.randrange(1, 5)))
        if k < .65:
            return dict(k='ctl', p=w32(rng.choice([0, 6, 77, 0x01000000, 0xffffffff])) + good[4:])
        if k < .8:
            if rng.random() < .3:
                return dict(k='ctl', p=good + w32(1) + w32(rng.choice([0, 509, 512])) + bytes(rng.randrange(501 - len(good), 620)))
            return dict(k='bigctl', n=rng.choice([513, 514, 1024, 0x10000004, 0xffffffff]))
        if k < .9:
            return dict(k='data', id=900, b=payload(900, rng.choice([1, 4, 20])))
        return dict(k='ctl', p=ctl_payload(START, [b'a', b'b']) if ty == START else ctl_payload(STOP, [b'a']))
    if ty in (STOP, FINISH):
        return dict(k='ctl', p=ctl_payload(ty))
    r = rng.random()
    if r < .15:
        cts = []
    elif r < .75 and own:
        cts = rng.sample(own, rng.randrange(1, len(own) + 1))
        if rng.random() < .3:
            cts.insert(0, rng.choice(CTPOOL))
    else:
        cts = [rng.choice(CTPOOL) for _ in range(rng.randrange(1, 4))]
    if ty == START:
        cts = cts[:1]
    while len(ctl_payload(ty, cts)) > 512:
        cts = cts[:-1]
    return dict(k='ctl', p=ctl_payload(ty, cts))


def rand_cts(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    pool = CTPOOL if rng.random() < .5 else CTPOOL[:4]
    return [rng.choice(pool) for _ in range(n)]


def rand_writer(rng):
    bi = rng.random() < .7
    own = rand_cts(rng)
    s = Script(role='w', bi=bi, cts=own, pays={}, conns=[], ops=[])
    invalid = rng.random() < .3
    for i in range(1, rng.choice([2, 4, 8])):
        s['pays'][i] = payload(i, rng.choice([1, 2, 3, 4, 5, 17, 100, 255, 256, 1000, 65535, 65536, 70000]))
    ids = list(s['pays'])
    bulk = rng.random() < .25
    if bulk:
        s['pays'] = {i: payload(i, rng.choice([4, 5, 17, 60])) for i in ids}
    if invalid and not bulk:
        s['pays'][50] = b''
        s['pays'][51] = rng.choice([0xffffffff, 0x100000000, 0x100000005, 1 << 40, (1 << 64) - 1])
    allids = list(s['pays'])
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        toks = []
        if bi:
            toks = [rand_ctl(rng, ACCEPT, own), rand_ctl(rng, FINISH, own)]
            if rng.random() < .1:
                toks.pop()
        c = dict(open='ok' if rng.random() < .85 else rng.choice(['fail', 'again']), close='ok' if rng.random() < .85 else 'fail',
                 toks=toks, inend=rng.choice(['stop', 'fail', 'again']), wfail=-1, wres=rng.choice(['fail', 'fail', 'again', 'stop']))
        if toks and rng.random() < .2:
            c['cut'] = rng.randrange(1, 20)
            c['cut'] = min(c['cut'], sum(len(tok_bytes(t)) for t in toks))
        if rng.random() < .45:
            ready = len(ctl_payload(READY, own)) + 8 if bi else 0
            st = len(ctl_payload(START, own[:1])) + 8
            c['wfail'] = rng.choice([0, 1, max(0, ready - 1), ready, ready + 1, ready + st - 1, ready + st, ready + st + rng.randrange(1, 40),
                                     ready + st + rng.randrange(300), ready + st + rng.randrange(20000)])
        s['conns'].append(c)
    for _ in range(rng.randrange(1, 10)):
        r = rng.random()
        if r < .15:
            s['ops'].append(['open'])
        elif r < .3:
            s['ops'].append(['close'])
        elif r < .42:
            s['ops'].append(['get', rng.choice([1, 2, 3, 4, 5, 0, 9])])
        elif r < .55:
            s['ops'].append(['write1', rng.choice(allids)])
        elif bulk and r < .8:
            s['ops'].append(['write', '*%d' % rng.choice([1, 2, 63, 127, 128, 129, 130, 200, 255, 256, 257, 384, 385, 513])])
        else:
            s['ops'].append(['write'] + [rng.choice(allids) for _ in range(rng.randrange(1, 7))])
    s['ops'].append(['destroy'])
    return s


def rand_reader(rng):
    bi = rng.random() < .6
    own = rand_cts(rng)
    mx = rng.choice([512, 513, 600, 1000, 70000, 1048576, 4294967294])
    s = Script(role='r', bi=bi, cts=own, pays={}, conns=[], ops=[])
    if mx != 1048576 or rng.random() < .5:
        s['max'] = mx
    did = 100
    for _ in range(rng.choice([1, 1, 2, 3])):
        toks = [rand_ctl(rng, READY, own)] if bi else []
        toks.append(rand_ctl(rng, START, own))
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            r = rng.random()
            did += 1
            if r < .55:
                n = rng.choice([1, 2, 3, 4, 5, 8, 100, 511, 512, 513, 600, 1000, 1001, 4096, 70000])
                toks.append(dict(k='data', id=did, b=payload(did, n)))
            elif r < .63 and mx < 100000:
                n = rng.choice([mx - 1, mx, mx + 1])
                toks.append(dict(k='data', id=did, b=payload(did, n)))
            elif r < .7 and mx < 1 << 30:
                toks.append(dict(k='data', id=did, b=payload(did, rng.choice([4, 100])), n=rng.choice([mx + 1, mx + 4, 0x7fffffff, 0x80000000, 0xfffffffc, 0xffffffff])))
            elif r < .7:
                toks.append(dict(k='data', id=did, b=payload(did, 8), n=0xffffffff))
            elif r < .8:   # unknown control frame
                toks.append(dict(k='ctl', p=w32(rng.choice([0, 6, 9, 255, 0x10003, 0xffffffff])) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 8, 100, 507, 508, 508, 509, 510, 511, 512, 516, 600])))))
            elif r < .9:
                toks.append(dict(k='ctl', p=ctl_payload(STOP)))
            else:
                toks.append(rand_ctl(rng, rng.choice([STOP, READY, START, ACCEPT, FINISH]), own))
        if rng.random() < .6:
            toks.append(dict(k='ctl', p=ctl_payload(STOP)))
        c = dict(open='ok' if rng.random() < .9 else rng.choice(['fail', 'again']), close='ok' if rng.random() < .85 else 'fail',
                 toks=toks, inend=rng.choice(['stop', 'stop', 'fail', 'again']), wfail=-1, wres=rng.choice(['fail', 'stop', 'again']))
        if rng.random() < .25:
            total = sum(len(tok_bytes(t)) for t in toks)
            c['cut'] = rng.choice([1, 2, 3, 4, 5, 8, 11, 12, rng.randrange(1, max(2, min(600, total)))])
            c['cut'] = min(c['cut'], total)
        # a frame that announces more than it brings must be the last thing in the stream
        for i, t in enumerate(toks):
            if t['k'] == 'data' and 'n' in t:
                del toks[i + 1:]
                c.pop('cut', None)
                break
        if bi and rng.random() < .3:
            acc = 8 + 4
            c['wfail'] = rng.choice([0, 3, acc - 1, acc, acc + 9, acc + 13, acc + 20, 300])
        s['conns'].append(c)
    for _ in range(len(s['conns'])):
        if rng.random() < .5:
            s['ops'].append(['open'])
        for _ in range(rng.choice([0, 1, 2, 5, 10])):
            s['ops'].append(['read'] if rng.random() < .85 else ['get', rng.choice([1, 2, 3, 4, 5, 0, 7])])
        r = rng.random()
        if r < .6:
            s['ops'].append(['close'])
        elif r < .7:
            s['ops'] += [['close'], ['close']]
        if rng.random() < .3:
            s['ops'].append(['read'])
        if rng.random() < .25:
            s['ops'].append(['open'])
    s['ops'].append(['destroy'])
    return s


def fault_enumeration(rng):
    """A plain session of each kind, with a failure placed at every byte, every operation in turn."""
    out = []
    for bi in (True, False):
        own = [b'a', b'bb']
        pays = {1: payload(1, 6), 2: payload(2, 30)}
        ready, start = 8 + len(ctl_payload(READY, own)), 8 + len(ctl_payload(START, [b'a']))
        total = (ready if bi else 0) + start + 10 + 34 + 12
        inn = [dict(k='ctl', p=ctl_payload(ACCEPT, [b'bb', b'a'])), dict(k='ctl', p=ctl_payload(FINISH))] if bi else []
        for ops in ([['open'], ['write', 1], ['write1', 2], ['close'], ['write', 1], ['open'], ['write', 2], ['destroy']],
                    [['write', 1, 2], ['get', 2], ['destroy']], [['write', 1], ['open'], ['write', 2], ['close'], ['close'], ['open'], ['get', 5], ['destroy']]):
            base = dict(role='w', bi=bi, cts=own, pays=pays, ops=ops)
            good = dict(toks=inn)
            for k in range(-1, total + 1):
                out.append(Script(base, conns=[dict(good, wfail=k), good, good]))
            nin = sum(len(tok_bytes(t)) for t in inn)
            for k in range(1, nin + 1):
                for end in ('stop', 'fail'):
                    out.append(Script(base, conns=[dict(good, cut=k, inend=end), good, good]))
            for o in ('fail', 'again'):
                out.append(Script(base, conns=[dict(good, open=o), good, dict(good, open=o), good]))
            out.append(Script(base, conns=[dict(good, close='fail'), dict(good, close='fail'), good]))
        # reader
        toks = ([dict(k='ctl', p=ctl_payload(READY, [b'zz', b'bb']))] if bi else []) + [
            dict(k='ctl', p=ctl_payload(START, [b'bb'])), dict(k='data', id=101, b=payload(101, 5)),
            dict(k='ctl', p=w32(9) + b'future'), dict(k='data', id=102, b=payload(102, 512)), dict(k='ctl', p=ctl_payload(STOP))]
        n = sum(len(tok_bytes(t)) for t in toks)
        for ops in ([['open'], ['read'], ['read'], ['read'], ['get', 3], ['open'], ['close'], ['read'], ['open'], ['read'], ['destroy']],
                    [['read'], ['get', 2], ['read'], ['read'], ['read'], ['destroy']],
                    [['get', 2], ['read'], ['close'], ['read'], ['close'], ['open'], ['read'], ['read'], ['read'], ['close'], ['destroy']]):
            base = dict(role='r', bi=bi, cts=own, pays={}, ops=ops, max=512)
            good = dict(toks=toks)
            for k in list(range(0, 40)) + list(range(n - 90, n)) + [n // 2]:
                if 0 <= k < n:
                    for end in ('stop', 'fail'):
                        out.append(Script(base, conns=[dict(good, cut=n - k, inend=end), good, good]))
            for k in range(0, 40 if bi else 0):
                out.append(Script(base, conns=[dict(good, wfail=k), good, good]))
            for o in ('fail', 'again'):
                out.append(Script(base, conns=[dict(good, open=o), good, dict(good, open=o), good]))
            out.append(Script(base, conns=[dict(good, close='fail'), dict(good, close='fail'), good]))
    return out


def extremes(rng, quick):
    """Counts and sizes far from the usual ones."""
    out = []
    fin = dict(k='ctl', p=ctl_payload(FINISH))

    def many(n):
        return [b'%c%c' % (97 + i // 26, 97 + i % 26) if i % 3 else bytes([i]) for i in range(n)]
    for n in (5, 8, 9, 15, 16, 17, 31, 32, 33, 48, 50):
        own = many(n)
        for peer in ([own[-1]], [own[-2], own[-1]], own[::-1], [own[n // 2]], [b'??'] * 9 + [own[-1]], own):
            peer = peer[:50]
            s = Script(role='w', bi=True, cts=own, pays={1: payload(1, 9)}, ops=[['open'], ['write', 1], ['get', ACCEPT], ['get', START], ['close'], ['destroy']],
                       conns=[dict(toks=[dict(k='ctl', p=ctl_payload(ACCEPT, peer)), fin])])
            out.append(s)
            for start in (own[-1], own[8 % n], own[0]):
                out.append(Script(role='r', bi=True, cts=own, pays={}, ops=[['open']] * rng.randrange(2) + [['read'], ['get', ACCEPT], ['get', READY], ['read'], ['close'], ['destroy']],
                                  conns=[dict(toks=[dict(k='ctl', p=ctl_payload(READY, peer)), dict(k='ctl', p=ctl_payload(START, [start])),
                                                    dict(k='data', id=101, b=payload(101, 9)), dict(k='ctl', p=ctl_payload(STOP))])]))
            out.append(Script(role='r', bi=False, cts=own, pays={}, ops=[['open']] * rng.randrange(2) + [['read'], ['read'], ['close'], ['destroy']],
                              conns=[dict(toks=[dict(k='ctl', p=ctl_payload(START, [peer[-1]])), dict(k='data', id=101, b=payload(101, 9)), dict(k='ctl', p=ctl_payload(STOP))])]))
    # many frames in one call, and in one session
    for bi in (True, False):
        inn = [dict(k='ctl', p=ctl_payload(ACCEPT)), fin] if bi else []
        pays = {i: payload(i, 4 + i) for i in range(1, 10)}
        for c in (300, 511, 512, 640, 767, 768, 769, 1000, 1023, 1024, 1025, 1151, 1152, 1500, 2047, 2048, 2049, 4000):
            out.append(Script(role='w', bi=bi, cts=[], pays=pays, ops=[['write', '*%d' % c], ['write1', 3], ['close'], ['destroy']], conns=[dict(toks=inn)]))
            out.append(Script(role='w', bi=bi, cts=[], pays=pays, ops=[['write', '*%d' % c], ['write', 3, 4], ['open'], ['write', '*7'], ['destroy']],
                              conns=[dict(toks=inn, wfail=rng.randrange(100, 13 * c)), dict(toks=inn)]))
        n = 300 if quick else 4000
        data = [dict(k='data', id=100 + i, b=payload(100 + i, rng.choice([1, 4, 5, 20]) if i % 7 else 5)) for i in range(n)]
        data = [dict(t, b=payload(t['id'], max(4, len(t['b'])))) for t in data]
        hs = [dict(k='ctl', p=ctl_payload(READY)), dict(k='ctl', p=ctl_payload(START))][not bi:]
        out.append(Script(role='r', bi=bi, cts=[], pays={}, ops=[['x%d' % (n + 3), 'read'], ['close'], ['destroy']], conns=[dict(toks=hs + data + [dict(k='ctl', p=ctl_payload(STOP))])]))
        unk = [dict(k='ctl', p=w32(7 + i % 300) + bytes(i % 40)) for i in range(n)]
        out.append(Script(role='r', bi=bi, cts=[], pays={}, ops=[['x4', 'read'], ['close'], ['destroy']],
                          conns=[dict(toks=hs + data[:2] + unk + data[2:3] + [dict(k='ctl', p=ctl_payload(STOP))])]))
        # many sessions on one handle
        n = 70 if quick else 500
        ops = []
        conns = []
        for i in range(n):
            bad = rng.random() < .2
            conns.append(dict(toks=inn, wfail=rng.randrange(60) if bad else -1))
            ops += [['open'], ['write', 1 + i % 9], ['get', START], ['close']]
        out.append(Script(role='w', bi=bi, cts=[b'a'], pays=pays, ops=ops + [['destroy']], conns=conns))
        good = [dict(toks=inn) for _ in range(n)]
        out.append(Script(role='w', bi=bi, cts=[b'a'], pays=pays, ops=[x for i in range(n) for x in (['open'], ['write', 1 + i % 9], ['close'])] + [['destroy']], conns=good))
        sess = hs + data[:2] + [dict(k='ctl', p=ctl_payload(STOP))]
        out.append(Script(role='r', bi=bi, cts=[], pays={}, ops=[x for i in range(n) for x in (['open'], ['x3', 'read'], ['get', START], ['close'])] + [['destroy']],
                          conns=[dict(toks=sess) for i in range(n)]))
        out.append(Script(role='r', bi=bi, cts=[], pays={}, ops=[x for i in range(n) for x in (['open'], ['x3', 'read'], ['close'])] + [['destroy']],
                          conns=[dict(toks=sess, cut=rng.choice([0, 0, 1, 13, 20, 40]), close=rng.choice(['ok', 'ok', 'fail']), open=rng.choice(['ok', 'ok', 'ok', 'fail'])) for i in range(n)]))
        # frames as long as a frame can be (nobody looks at the bytes)
        for n in ((1 << 32) - 2, (1 << 32) - 3, (1 << 31) + 5, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 28):
            pays = {1: payload(1, 9), 2: Long(n), 3: payload(3, 5), 4: Long((1 << 32) - 2)}
            out.append(Script(role='w', bi=bi, cts=[], pays=pays, ops=[['write', 1], ['write1', 2], ['write', 3], ['close'], ['destroy']], conns=[dict(toks=inn)]))
            out.append(Script(role='w', bi=bi, cts=[], pays=pays, ops=[['write', 1, 2, 3, 4, 4, 1], ['write', 3], ['close'], ['destroy']], conns=[dict(toks=inn)]))
            out.append(Script(role='w', bi=bi, cts=[], pays=pays, ops=[['write', '*300'], ['write', 3], ['close'], ['destroy']], conns=[dict(toks=inn)]))
            tail = [dict(k='data', id=102, b=payload(102, 7)), dict(k='ctl', p=ctl_payload(STOP))]
            for mx in (512, 1048576, n - 1, n, (1 << 32) - 2):
                out.append(Script(role='r', bi=bi, cts=[], pays={}, max=mx, ops=[['x4', 'read'], ['close'], ['destroy']],
                                  conns=[dict(toks=hs + [dict(k='data', id=101, b=payload(101, 9)), dict(k='data', id=103, b=payload(103, 16), gap=n - 16)] + tail)]))
    return out


def run(ctx, roles, n):
    design(ctx, roles)
    scripts = [s for s in fault_enumeration(ctx.rng) + extremes(ctx.rng, ctx.quick) if s['role'] in roles]
    for role in roles:
        scripts += generated(ctx, role, (1200 if ctx.quick else 12000) // len(roles))
        f = rand_writer if role == 'w' else rand_reader
        scripts += [f(ctx.rng) for _ in range((n if ctx.quick else 25 * n) // len(roles))]
    check_scripts(ctx, scripts)


def writer(ctx):
    run(ctx, 'w', 2500)


def reader(ctx):
    run(ctx, 'r', 2500)


def both(ctx):
    run(ctx, 'wr', 3000)
