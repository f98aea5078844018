"""Reader/writer scripts over a scripted transport: execution by io_driver, tokenisation into events of IoRules.tla."""
import json, re, subprocess
from common import *

CONSTS = 'CONSTANTS WordLen = 4 MaxPayload = 512 MaxCt = 256\n'


def w32(n):
    return (n & 0xffffffff).to_bytes(4, 'big')


def hx(b):
    return bytes(b).hex() or '-'


def ctl_payload(ty, cts=()):
    return w32(ty) + b''.join(w32(1) + w32(len(c)) + bytes(c) for c in cts)


def half(n):
    return [n >> 16, n & 0xffff]


def payload(i, n):
    """Distinct, position-dependent content; recognisable for n >= 4."""
    h = w32(0x5A000000 + i)
    return (h + bytes((j * 37 + i * 11 + (j >> 8)) & 0xff for j in range(max(0, n - 4))))[:n] if n >= 4 else bytes([0x30 + i % 200] * n)


def tok_bytes(t):
    k = t['k']
    if k == 'ctl':
        return w32(0) + w32(len(t['p'])) + bytes(t['p'])
    if k == 'bigctl':
        return w32(0) + w32(t['n'])
    if k == 'data':
        return w32(t['n'] if 'n' in t else len(t['b']) + t.get('gap', 0)) + bytes(t['b'])
    if k == 'raw':
        return bytes(t['b'])


def tok_full(t):
    return 4 + len(t['b']) + t['gap'] if 'gap' in t else 4 + t['n'] if t['k'] == 'data' and 'n' in t else len(tok_bytes(t))


class Long(int):
    """A payload so long that nobody has to look at its bytes."""


class Script(dict):
    """keys: role, bi, cts, max, pays {id: bytes | int (inexpressible length) | Long}, conns, ops
    A data token with 'gap' has that many bytes after its b that nobody has to look at (at most one per connection)."""

    def text(self, ident):
        L = ['case %d' % ident, 'role ' + self['role'], 'bi %d' % self['bi']]
        L += ['ct ' + hx(c) for c in self['cts']]
        if 'max' in self:
            L.append('max %d' % self['max'])
        for i, p in self['pays'].items():
            L.append('pay %d %s' % (i, '%%%d' % p if isinstance(p, Long) else '!%d' % p if isinstance(p, int) else hx(p)))
        for c in self['conns']:
            b = b''.join(tok_bytes(t) for t in c['toks'])
            if c.get('cut'):
                b = b[:len(b) - c['cut']]
            b, at = hx(b), 0
            for t in c['toks']:
                at += len(tok_bytes(t))
                if 'gap' in t:
                    b = b[:2 * at] + '~%d~' % t['gap'] + b[2 * at:]
            L.append('conn %s %s %s %d %s %s' % (c.get('open', 'ok'), c.get('close', 'ok'), c.get('inend', 'stop'),
                                                 c.get('wfail', -1), c.get('wres', 'fail'), b))
        for op in self['ops']:
            L.append('op ' + ' '.join(str(x) for x in op))
        L.append('run')
        return '\n'.join(L) + '\n'


def run_scripts(exe, scripts, base=0, env=None):
    """Returns (raw line lists per script or None after a crash, crashes)."""
    raws, crashes, start = [None] * len(scripts), [], 0
    while start < len(scripts):
        inp = ''.join(s.text(i) for i, s in enumerate(scripts[start:], start))
        f = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                             env={**os.environ, **(env or ASAN_ENV)})
        try:
            out, err = f.communicate(inp, timeout=240)
            rc = f.returncode
        except subprocess.TimeoutExpired:
            f.kill()
            out, err = f.communicate()
            rc, err = -99, 'TIMEOUT ' + err
        cur = None
        for l in out.split('\n'):
            if l.startswith('case '):
                cur = int(l[5:])
                lines = []
            elif l == 'end':
                raws[cur] = lines
                cur = None
            elif cur is not None:
                lines.append(l)
        if rc == 0 and cur is None:
            break
        k = cur if cur is not None else start
        crashes.append((k, rc, err[-5000:], out[-2000:]))
        start = k + 1
        if len(crashes) > 3:
            break
    return raws, crashes


def tokenise(script, raw):
    """Raw history -> list of events for IoRules."""
    ev = []
    by_content = {bytes(p): i for i, p in script['pays'].items() if not isinstance(p, int)}
    for c in script['conns']:
        for t in c['toks']:
            if 'gap' in t:
                by_content['%s+%d' % (hx(t['b'][:8]), len(t['b']) + t['gap'])] = t['id']
            elif t['k'] == 'data' and 'n' not in t:
                by_content.setdefault(bytes(t['b']), t['id'])
    conn, out, toks, spans, touched = None, b'', [], [], 0
    desync = False

    def drain():
        nonlocal out, desync
        n = 0
        while not desync and len(out) >= 4:
            ln = int.from_bytes(out[:4], 'big')
            if ln:
                if len(out) < 4 + ln:
                    if ln >= (1 << 26) and (len(out) > 4 or not any(isinstance(p, Long) for p in script['pays'].values())):
                        desync = True
                        ev.append(dict(e='w', k='junk'))
                        n += 1
                    break
                ev.append(dict(e='w', k='data', id=by_content.get(out[4:4 + ln], -1)))
                out = out[4 + ln:]
            else:
                if len(out) < 8:
                    break
                cl = int.from_bytes(out[4:8], 'big')
                if cl > 4096:
                    desync = True
                    ev.append(dict(e='w', k='junk'))
                    n += 1
                    break
                if len(out) < 8 + cl:
                    break
                ev.append(dict(e='w', k='ctl', p=list(out[8:8 + cl])))
                out = out[8 + cl:]
            n += 1
        return n
    for l in raw:
        f = l.split(' ')
        if f[0] == 'C':
            op = f[1]
            a = [int(x) for x in f[2:] if x and not x.startswith('*')]
            if op == 'write1':
                op = 'write'
            for x in f[2:]:
                if x.startswith('*'):
                    ids = list(script['pays'])
                    a = [ids[k % len(ids)] for k in range(int(x[1:]))]
            a = [i if isinstance(script['pays'].get(i), Long) or not isinstance(script['pays'].get(i), int) and len(script['pays'].get(i, b'x')) else -abs(i) for i in a] if op == 'write' else a
            lastop = op
            ev.append(dict(e='call', op=op, a=a))
        elif f[0] == 'R':
            e = dict(e='ret', res=f[1], id=0, len=[0, 0], type=0, cts=[])
            if lastop == 'get' and f[1] == 'ok' and len(f) > 2 and f[2] != 'NULL':
                e['type'] = min(int(f[2]), 1000)
                e['cts'] = [list(bytes.fromhex(x.replace('-', ''))) for x in f[3:]]
            if lastop == 'read' and f[1] == 'ok':
                if f[2] == 'NULL':
                    e['id'] = -1
                elif '+' in f[2]:
                    e['id'] = by_content.get(f[2], -1)
                    e['len'] = half(int(f[2].split('+')[1]))
                else:
                    b = bytes.fromhex(f[2])
                    e['id'] = by_content.get(b, -1)
                    e['len'] = half(len(b))
            ev.append(e)
        elif f[0] == 'O':
            ev.append(dict(e='topen', res=f[1]))
            if f[1] == 'ok':
                conn = script['conns'][int(f[2])]
                out, toks, spans, touched, desync = b'', conn['toks'], [], 0, False
                pos = 0
                for t in toks:
                    n = tok_full(t) if 'gap' in t else len(tok_bytes(t))
                    spans.append([pos, pos + tok_full(t), 0])
                    pos += n
        elif f[0] == 'X':
            ev.append(dict(e='tclose', res=f[1]))
        elif f[0] == 'D':
            ev.append(dict(e='tdestroy'))
        elif f[0] == 'W':
            n = 0
            for x in re.split('(#-?[0-9]+);', f[3]):
                if not x.startswith('#'):
                    out += bytes.fromhex(x.replace('-', ''))
                    n += drain()
                    continue
                i = int(x[1:])
                if desync or len(out) != 4 or i < 0 or int.from_bytes(out, 'big') != script['pays'][i]:
                    i = -1
                ev.append(dict(e='w', k='data', id=i))
                n += 1
                out = b''
            if f[1] != 'ok':
                ev.append(dict(e='wfail'))
            elif n == 0:
                ev.append(dict(e='touch'))
        elif f[0] == 'I':
            off, cnt = int(f[2]), int(f[3])
            n = 0
            over = hdr = False
            if f[1] != 'ok':
                for t, (s, x, _) in zip(toks, spans):
                    if s <= off < x and t['k'] != 'raw' and off + cnt > x:
                        over, hdr = True, off + cnt <= s + 8
                end = off
            else:
                end = off + cnt
            for t, sp in zip(toks, spans):
                s, x, state = sp
                if t['k'] == 'ctl' and len(t['p']) <= 512:
                    if end >= x and state < 1:
                        sp[2] = 1
                        ev.append(dict(e='r', k='ctl', p=list(t['p'])))
                        n += 1
                elif t['k'] in ('bigctl', 'ctl'):
                    if end >= s + 8 and state < 1:
                        sp[2] = 1
                        ev.append(dict(e='r', k='junk'))
                        n += 1
                elif t['k'] == 'raw':
                    if end > s and state < 1:
                        sp[2] = 1
                        ev.append(dict(e='r', k='junk'))
                        n += 1
                else:
                    if end >= s + 4 and state < 1:
                        sp[2] = state = 1
                        ev.append(dict(e='rh', len=half(x - s - 4)))
                        n += 1
                    if end >= x and state < 2:
                        sp[2] = 2
                        ev.append(dict(e='r', k='data', id=t['id'], len=half(x - s - 4)))
                        n += 1
            if f[1] != 'ok':
                ev.append(dict(e='rfail', res=f[1], over=over, hdr=hdr))
            elif n == 0:
                ev.append(dict(e='touch'))
    return ev


def to_trace(script, raw, ident):
    mx = script.get('max', 1048576)
    return dict(id=ident, cfg=dict(role=script['role'], bi=bool(script['bi']), cts=[list(c) for c in script['cts']], max=half(mx)),
                ev=tokenise(script, raw))


def build_driver(ctx):
    return build(ctx, 'io', [HARNESS + '/io_driver.c'] + lib_sources(), ASAN + ['-I' + REPO + '/fstrm'], ASAN)


def is_big(s):
    """Needs gigabytes of address space: not for the sanitizer, and one at a time."""
    return any('gap' in t for c in s['conns'] for t in c['toks'])


def check_scripts(ctx, scripts, extra_raw=None):
    """Run, tokenise, validate; reports at most one violation."""
    asan = build_driver(ctx)
    big = [s for s in scripts if is_big(s)]
    scripts = [s for s in scripts if not is_big(s)]
    n = max(1, (len(scripts) + NCPU - 1) // NCPU)
    while len(scripts) % n:
        scripts.append(scripts[-1])
    parts = [scripts[i:i + n] for i in range(0, len(scripts), n)]
    if big:
        plain = build(ctx, 'iobig', [HARNESS + '/io_driver.c'] + lib_sources(), ['-O1', '-g', '-I' + REPO + '/fstrm'], [])
        parts.append(big)
        scripts = scripts + big

    def exe_of(s):
        return plain if is_big(s) else asan
    res = run_parallel(lambda p: run_scripts(exe_of(p[0]), p), parts)
    traces, crash = [], None
    for pi, (raws, crashes) in enumerate(res):
        for k, raw in enumerate(raws):
            if raw is not None:
                traces.append(to_trace(scripts[pi * n + k], raw, pi * n + k))
                if extra_raw:
                    extra_raw(scripts[pi * n + k], raw)
        if crashes and not crash:
            crash = (pi * n + crashes[0][0],) + tuple(crashes[0][1:])
    for k in (len(scripts) // 7, len(scripts) // 2, len(scripts) - 1):
        if k < len(traces):
            ctx.sample(dict(ops=scripts[k]['ops'], ev=traces[k]['ev'][:14]))
    bad = validate(ctx, 'IoTrace', traces, CONSTS)
    ctx.extra['scripts'] = ctx.extra.get('scripts', 0) + len(scripts)
    if bad:
        t, l, out = bad
        s = scripts[t['id']]
        raws, _ = run_scripts(exe_of(s), [s])
        run = [s]
        if raws[0] is not None and tokenise(s, raws[0]) != t['ev']:
            # what one session does may depend on the ones before it in the same process
            run = parts[t['id'] // n][:t['id'] % n + 1] if not is_big(s) else big
            raws, _ = run_scripts(exe_of(s), run)
            k = run.index(s) if is_big(s) else -1
            if raws[k] is None or tokenise(s, raws[k]) != t['ev']:
                raise CheckError('driver is not deterministic')
        ctx.violate('%s rejected at event %d: %s' % (ctx.prop, l, json.dumps(t['ev'][l - 1])[:400]),
                    {'script.txt': ''.join(x.text(i) for i, x in enumerate(run)), 'trace.json': t, 'tlc.txt': out[-8000:]})
    elif crash:
        k = crash[0]
        if run_scripts(exe_of(scripts[k]), [scripts[k]])[1]:
            ctx.violate('the library crashed or hung', {'script.txt': scripts[k].text(0), 'stderr.txt': crash[2] + '\n--- history\n' + crash[3]})
    if not ctx.violation and len(traces) != len(scripts):
        raise CheckError('%d of %d scripts produced no trace' % (len(scripts) - len(traces), len(scripts)))
