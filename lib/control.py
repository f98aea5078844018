"""C01-C03: control frames. Cases enumerated by ControlGen and sampled, executed by ctl_driver, judged by ControlTrace."""
import json, subprocess
from common import *

CONSTS = 'CONSTANTS WordLen = 4 MaxPayload = 512 MaxCt = 256\n'


def hx(b):
    return bytes(b).hex() or '-'


def design(ctx):
    def cfg(mut, mb):
        return ('SPECIFICATION Spec\nINVARIANT NoBad\nCONSTANTS WordLen = 1 MaxPayload = 6 MaxCt = 2 '
                'Alphabet = {0,1,2,3,4,7} MaxBytes = %d MaxFields = 2 Mutation = "%s"\n' % (mb, mut))
    muts = ['settype', 'addlong', 'numstart', 'matchall', 'matchprefix', 'hdrlimit', 'noreset']
    check_design(ctx, 'ControlMC', cfg('none', 6 if ctx.quick else 7), [(m, cfg(m, 0)) for m in (muts[:2] if ctx.quick else muts)])


def gen(ctx):
    d, o = ctx.path('decode.ndjson'), ctx.path('objects.ndjson')
    tlc(ctx, 'ControlGen', 'SPECIFICATION Spec\n' + CONSTS + 'CONSTANTS MaxFieldsGen = %d\n' % 2,
        dict(OUT_DECODE=d, OUT_OBJECTS=o), workers=1)
    return [json.loads(l) for l in open(d)], [json.loads(l) for l in open(o)]


def run_cases(ctx, exe, cases):
    """cases: list of op-line lists. Returns (traces, crashes) with crashes = (case index, op, stderr)."""
    traces, crashes, start = [], [], 0
    while start < len(cases):
        inp = ''.join('new %d\n%s\nend\n' % (i, '\n'.join(cases[i])) for i in range(start, len(cases)))
        try:
            p = subprocess.run([exe], input=inp, capture_output=True, text=True, errors='replace', timeout=300, env={**os.environ, **ASAN_ENV})
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b'').decode(), -1, 'timeout'
        lines = out.split('\n')
        done = []
        for l in lines[:-1]:
            done.append(json.loads(l))
        traces += done
        if rc == 0:
            break
        k = start + len(done)
        ops = lines[-1].count('{"op"')
        crashes.append((k, cases[k][ops - 1] if ops else '?', err[-4000:]))
        start = k + 1
        if len(crashes) > 3:
            break
    return traces, crashes


def check(ctx, cases):
    exe = build(ctx, 'ctl', [HARNESS + '/ctl_driver.c'] + lib_sources(), ASAN + ['-I' + REPO + '/fstrm'], ASAN)
    n = max(1, (len(cases) + NCPU - 1) // NCPU)
    parts = [cases[i:i + n] for i in range(0, len(cases), n)]
    res = run_parallel(lambda p: run_cases(ctx, exe, p), parts)
    traces = []
    for pi, (tr, crashes) in enumerate(res):
        for t in tr:
            t['id'] += pi * n
        traces += tr
        for k, op, err in crashes:
            # a crash breaks whatever is being checked
            c = again(lambda x: len(run_cases(ctx, exe, x)[1]) or None, parts[pi][:k + 1], [parts[pi][k]], err)
            ctx.violate('the library crashed or hung in "%s"' % op[:60], {'case.txt': '\n'.join('\n'.join(x) for x in c), 'stderr.txt': err})
            return
    ctx.sample(cases[len(cases) // 3])
    ctx.sample(cases[-1])
    bad = validate(ctx, 'ControlTrace', traces, CONSTS)
    if bad:
        t, l, out = bad
        rep, _ = run_cases(ctx, exe, [cases[t['id']]])
        run = [cases[t['id']]]
        if rep and rep[0]['ev'] != t['ev']:
            # what one object does may depend on the ones before it in the same process
            run = parts[t['id'] // n][:t['id'] % n + 1]
            rep, _ = run_cases(ctx, exe, run)
            if rep and rep[-1]['ev'] != t['ev']:
                raise CheckError('driver is not deterministic')
        ctx.violate('%s rejected at event %d: %s' % (ctx.prop, l, json.dumps(t['ev'][l - 1])[:600]),
                    {'case.txt': '\n'.join('\n'.join(c) for c in run), 'trace.json': t, 'tlc.txt': out[-6000:]})
    ctx.extra['cases'] = len(cases)


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        i = rng.randrange(len(b) + 1)
        if r < .35 and b:
            b[i % len(b)] = rng.choice([0, 1, 2, 3, 4, 5, 6, 255, rng.randrange(256)])
        elif r < .5:
            b[i:i] = bytes([rng.choice([0, 0, 1, rng.randrange(256)])])
        elif r < .65 and b:
            del b[i % len(b)]
        elif r < .8:
            del b[i:]
        else:
            b += bytes([0, 0, 0, 1, 0, 0, 0, 1, 65])[:rng.randrange(10)]
    return bytes(b)


def w32(n):
    return n.to_bytes(4, 'big')


def rand_ct(rng):
    n = rng.choice([0, 1, 2, 3, 8, 17, 100, 235, 236, 237, 244, 255, 256]) if rng.random() < .8 else rng.randrange(257)
    return bytes(rng.choice([0, 65, 66, rng.randrange(256)]) for _ in range(n))


def many_cts(rng, n, room=1 << 30):
    """n short content types that fit in room bytes as fields."""
    out = []
    for i in range(n):
        l = min(rng.choice([0, 0, 1, 2, 3]), max(0, room - 8 * (n - i)))
        out.append(bytes(rng.choice([0, 97, 98, rng.randrange(256)]) for _ in range(l)))
        room -= 8 + l
    return out


def near(c):
    """Strings that differ from c as little as possible, anywhere."""
    out = [c[:i] + bytes([c[i] ^ x]) + c[i + 1:] for i in sorted({0, 1, 2, 7, 8, 63, 64, 127, 128, 255, len(c) // 2, len(c) - 2, len(c) - 1}) if 0 <= i < len(c) for x in ((1, 0x20, 0x80) if i < 3 else (1, 128))]
    if 0 in c:
        out += [c[:c.index(0)], c[:c.index(0) + 1], c[:c.index(0) + 1] + b'Z' * (len(c) - c.index(0) - 1)]
    return out + [c[::-1], c.upper(), c + c]


def rand_frame(rng):
    ty = rng.choice([1, 2, 3, 4, 5])
    if rng.random() < .06:
        return w32(rng.choice([1, 4])) + b''.join(w32(1) + w32(len(c)) + c for c in many_cts(rng, rng.choice([6, 8, 9, 15, 16, 17, 31, 32, 33, 40, 62, 63, 64]), 508))
    k = rng.choice([0, 0, 1, 1, 2, 3, 5]) if ty in (1, 4) else rng.choice([0, 1, 1, 2]) if ty == 2 else rng.choice([0, 0, 1])
    p = w32(ty) + b''.join(w32(1) + w32(len(c)) + c for c in (rand_ct(rng) for _ in range(k)))
    if rng.random() < .3:  # steer to the size limit
        want = rng.choice([504, 505, 511, 512, 513])
        room = want - len(p)
        while room >= 8:
            n = min(256, room - 8)
            if 0 < room - 8 - n < 8:
                n -= 8
            p += w32(1) + w32(n) + bytes(rng.randrange(256) for _ in range(n))
            room -= 8 + n
    return p


def c01(ctx):
    design(ctx)
    dec, _ = gen(ctx)
    rng = ctx.rng
    pre = [[], ['set_type 4', 'add 6162'], ['set_type 2', 'add 61', 'add -']]
    cases = []
    for i, d in enumerate(dec):
        cases.append(pre[i % 3] + ['decode %d %s' % (d['hdr'], hx(d['bytes']))])
    for i in range(2500 if ctx.quick else 60000):
        p = rand_frame(rng)
        hdr = rng.random() < .6
        b = (bytes(4) + w32(len(p)) if hdr else b'') + p
        if rng.random() < .6:
            b = mutate(rng, b)
        ops = list(rng.choice(pre)) + ['decode %d %s' % (hdr, hx(b))]
        if rng.random() < .3:    # decode twice into one object
            q = rand_frame(rng)
            ops.append('decode 0 ' + hx(q))
            if rng.random() < .5:
                ops.append('decode 0 ' + hx(rng.choice([p, mutate(rng, p), mutate(rng, q)])))
        cases.append(ops)
    # every byte of well-formed frames, wrong in every position of a word
    ct = b'abc\0d'
    for ty, k in ((4, 0), (4, 1), (4, 3), (1, 1), (2, 1), (2, 0), (3, 0), (5, 0), (3, 1), (5, 1), (5, 2), (2, 2)):
        p = w32(ty) + (w32(1) + w32(len(ct)) + ct) * k
        for hdr in (0, 1):
            b = (bytes(4) + w32(len(p)) if hdr else b'') + p
            cases.append(['decode %d %s' % (hdr, hx(b))])
            for j in range(len(b)):
                for x in (1, 2, 0x80, 0xff):
                    cases.append(['decode %d %s' % (hdr, hx(b[:j] + bytes([b[j] ^ x]) + b[j + 1:]))])
    for n in range(4, 65):
        for ty in (1, 4):
            cts = many_cts(rng, n, 508)
            cases.append(['decode 0 ' + hx(w32(ty) + b''.join(w32(1) + w32(len(c)) + c for c in cts))])
    for i in range(500 if ctx.quick else 5000):
        cases.append(['decode %d %s' % (rng.randrange(2), hx(bytes(rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 9]) for _ in range(rng.randrange(30)))))])
    check(ctx, cases)


def obs_ops(o, rng, full):
    cts = [bytes(c) for c in o['cts']]
    out = ['get_type', 'num'] + ['get %d' % i for i in range(len(cts) + 2)]
    qs = [b'', b'\0', b'a', b'ab', b'abc'] + cts + [c[:-1] for c in cts if c] + [c + b'\0' for c in cts]
    out += ['match NULL'] + ['match ' + hx(q) for q in dict.fromkeys(qs)]
    return out


def enc_ops(cts_len, rng):
    out = []
    for h in (0, 1):
        out += ['size %d' % h]
        caps = {0, 1, 4, 12, 600} | {max(0, n + d + 8 * h) for n in cts_len for d in (-1, 0, 1)}
        out += ['encode %d %d' % (h, c) for c in sorted(caps)]
    return out


def build_ops(o):
    return (['set_type %x' % o['type']] if o['type'] else []) + ['add ' + hx(c) for c in o['cts']]


def lens(o):
    cts = o['cts']
    if o['type'] in (3, 5):
        cts = []
    full = 4 + sum(8 + len(c) for c in cts)
    return {full, 4 + (8 + len(cts[0]) if cts else 0)}


def c02(ctx):
    design(ctx)
    _, objs = gen(ctx)
    rng = ctx.rng
    cases = []
    for o in objs:
        if o['type']:
            cases.append(build_ops(o) + enc_ops(lens(o), rng))
    for n in (255, 256, 257, 258, 511, 512, 1000, 65536, 65792):
        cases.append(['set_type 4', 'add ' + hx(bytes([65]) * n), 'num', 'encode 1 600', 'size 1'])
    for i in range(600 if ctx.quick else 12000):
        o = dict(type=rng.randrange(1, 6), cts=[rand_ct(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 8]))])
        if rng.random() < .5:   # exactly around the limit
            o['type'] = rng.choice([1, 4])
            want = rng.choice([503, 504, 505, 511, 512, 513]) - 4
            o['cts'] = []
            while want >= 8:
                n = min(rng.choice([256, 100, 40]), want - 8)
                if want - 8 - n < 8:
                    n = want - 8
                    if n > 256:
                        n = n - 8
                        o['cts'].append(b'')
                        if n > 256:
                            n = 256
                o['cts'].append(bytes(rng.randrange(256) for _ in range(n)))
                break_len = 4 + sum(8 + len(c) for c in o['cts'])
                want = want - 8 - n if n <= want - 8 else 0
        ops = build_ops(o) + enc_ops(lens(o), rng)
        # change of type and re-encoding, decode of an encoding
        ops += ['set_type %x' % rng.randrange(1, 6), 'size 1', 'encode 1 520', 'encode 0 512']
        if rng.random() < .3:
            ops += ['reset', 'set_type 2', 'encode 1 12', 'add 4142', 'encode 1 22']
        cases.append(ops)
    for n in list(range(4, 66)) + [100, 255, 256, 257, 300]:    # many content types
        for ty in (1, 4) + (() if ctx.quick else (2, 3, 5)):
            o = dict(type=ty, cts=many_cts(rng, n, rng.choice([508, 508, 509, 600])))
            cases.append(build_ops(o) + ['size 0', 'size 1', 'encode 0 600', 'encode 1 520', 'encode 1 %d' % (12 + sum(8 + len(c) for c in o['cts']))])
    for n in (257, 259, 300, 512, 513, 768, 65535, 65537, 65600, 131072, 131100):
        for ty in (1, 2, 4, 0):
            cases.append((['set_type %x' % ty] if ty else []) + ['add ' + hx(b'x' * n), 'num', 'add 61', 'num', 'get 0'] + (['encode 1 600'] if ty else []))
    for i in range(400 if ctx.quick else 6000):   # one object again and again, with contents alike
        ops, ty, k = [], rng.randrange(1, 6), rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 12, 20])
        for rnd in range(rng.choice([2, 3, 5])):
            if rng.random() < .2:
                ty, k = rng.randrange(1, 6), rng.choice([0, 1, 2, 4, 6, 9])
            cts = [bytes(rng.choice([0, 97, 98]) for _ in range(rng.choice([0, 1, 2, 3, 9]))) for _ in range(k)]
            p = w32(ty) + b''.join(w32(1) + w32(len(c)) + c for c in cts)
            n = len(p)
            if rng.random() < .3 and (ty in (1, 4) or not k or (ty == 2 and k == 1)):
                ops.append('decode 0 ' + hx(p))
            else:
                ops += ['reset', 'set_type %x' % ty] + ['add ' + hx(c) for c in cts]
            q = ['size 0', 'size 1', 'encode 0 %d' % n, 'encode 1 %d' % (n + 8), 'encode 1 %d' % max(0, n + 7), 'encode 0 512']
            ops += rng.sample(q, rng.choice([1, 2, 4, 6]))
        cases.append(ops)
    for i in range(300 if ctx.quick else 5000):   # round trip through the decoder
        p = rand_frame(rng)
        cases.append(['decode 0 ' + hx(p), 'size 0', 'size 1', 'encode 0 %d' % len(p), 'encode 1 %d' % (len(p) + 8), 'encode 1 %d' % (len(p) + 7)])
    check(ctx, cases)


def c03(ctx):
    design(ctx)
    _, objs = gen(ctx)
    rng = ctx.rng
    cases = []
    for o in objs:
        cases.append(build_ops(o) + obs_ops(o, rng, True))
    for w in ['0', '6', '7', 'ffffffff', '100', '10002', '80000001', '1000003']:
        for pre in ([], ['set_type 4'], ['set_type 3', 'add 61']):
            cases.append(pre + ['set_type ' + w, 'get_type', 'num', 'match NULL', 'match 61'])
    for w in ['0', '1', '2', '3', '4', '5', '6', '7', '10', 'ff', '100', '101', '10001', '80000001', 'ffffffff']:
        cases.append(['tname ' + w, 'fname ' + w])
    for n in (4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 511, 512, 513):    # many content types
        for ty in (0, 1, 2, 3, 4):
            cts = many_cts(rng, n) if rng.random() < .5 else [b'%d' % i for i in range(n)]
            cases.append((['set_type %x' % ty] if ty else []) + ['add ' + hx(c) for c in cts] + ['num'] +
                         ['get %d' % i for i in sorted({0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, n - 2, n - 1, n, n + 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 64) - 1})] +
                         ['match ' + hx(c) for c in (cts[0], cts[1], cts[n // 2], cts[-2], cts[-1], cts[-1] + b'x', b'zz')])
    for i in range(300 if ctx.quick else 4000):    # queries that nearly match
        cts = [rand_ct(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .3:
            cts = [b'ab\0cd', rng.choice([b'ab\0ce', b'\0a', b'ab', b'ab\0'])]
        cases.append(build_ops(dict(type=rng.choice([1, 2, 4, 4]), cts=cts)) + ['match ' + hx(q) for c in cts for q in near(c)])
    for i in range(500 if ctx.quick else 15000):  # histories
        ops, cts = [], []
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            if r < .25:
                ops.append('set_type %x' % rng.randrange(0, 8))
            elif r < .5:
                c = rng.choice([b'', b'a', b'ab', b'a\0', b'abc', rand_ct(rng)])
                cts.append(c)
                ops.append('add ' + hx(c))
            elif r < .57:
                ops.append('reset')
                cts = []
            elif r < .65:
                ops.append('decode 0 ' + hx(rand_frame(rng)))
            elif r < .8:
                q = rng.choice(cts or [b'a'])
                ops.append('match ' + rng.choice(['NULL', hx(q), hx(q + b'x'), hx(q[:-1]), hx(b'ab')]))
            else:
                ops.append(rng.choice(['get_type', 'num', 'get 0', 'get 1', 'get 2']))
        o = dict(cts=cts)
        cases.append(ops + obs_ops(o, rng, False))
    check(ctx, cases)
