"""Shared machinery: scratch directory, building from /repo, running TLC, trace validation, evidence."""
import atexit, concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FSTRM_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself cannot work (not a verdict on the code)."""


class BuildFailed(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='fstrmv-%s-' % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.notes, self.extra = [], [], [], {}
        self.violation = None
        shutil.rmtree(self.replay_dir(), True)
        self.level = 'model_checking'

    @property
    def quick(self):
        return self.tier == 'quick'

    def replay_dir(self):
        return os.path.join(VERIF, 'evidence', 'replay', '%s-%s-%d' % (self.prop, self.tier, self.seed))

    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def sample(self, s):
        if len(self.samples) < 3:
            s = json.dumps(s) if not isinstance(s, str) else s
            self.samples.append(s[:1500])

    def violate(self, what, files):
        """Record a violation; files: name -> text, kept as the replay."""
        if self.violation:
            return
        d = self.replay_dir()
        shutil.rmtree(d, True)
        os.makedirs(d)
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t if isinstance(t, str) else json.dumps(t, indent=1))
        with open(os.path.join(d, 'README'), 'w') as f:
            f.write('property %s\n%s\nre-run: VERIF_SEED=%d bin/check %s %s\n' % (self.prop, what, self.seed, self.prop, self.tier))
        self.log('VIOLATED:', what)
        self.violation = d

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples or ['(none)'], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=1 if self.violation else 0)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + '.json'))
        if self.violation:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violation), flush=True)
            return 1
        self.log('ok: states=%d traces=%d %s' % (self.states, self.traces, self.extra))
        return 0


# ---------------------------------------------------------------- building
def lib_sources():
    return sorted(glob.glob(REPO + '/fstrm/*.c')) + sorted(glob.glob(REPO + '/libmy/*.c'))


def build(ctx, name, srcs, cflags=(), ldflags=(), cc='gcc', per_file=None):
    """Compile srcs (paths) and link; per_file: basename -> extra flags. Returns the executable."""
    odir = ctx.path('obj-' + name, '')
    base = ['-std=gnu99', '-g', '-O1', '-w', '-DHAVE_CONFIG_H', '-include', HARNESS + '/config.h',
            '-I' + HARNESS, '-I' + REPO, '-pthread']
    objs = []

    def comp(i_s):
        i, s = i_s
        o = os.path.join(odir, '%d-%s.o' % (i, os.path.basename(s)))
        fl = list(cflags)
        if per_file:
            fl += per_file(s)
        r = subprocess.run([cc] + base + fl + ['-c', s, '-o', o], capture_output=True, text=True, errors='replace')
        if r.returncode:
            raise BuildFailed('%s: %s' % (s, r.stderr[-3000:]))
        return o
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, enumerate(srcs)))
    exe = ctx.path('bin', name)
    r = subprocess.run([cc, '-pthread', '-o', exe] + objs + list(ldflags), capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise BuildFailed(r.stderr[-3000:])
    return exe


# benign on every supported platform (and so no violation of a property): excluded
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=vla-bound,alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow',
        '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
ASAN_ENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1',
                UBSAN_OPTIONS='print_stacktrace=1:exitcode=97')


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(ctx, module, cfg, env=None, workers=NCPU, args=(), timeout=840, heap='6g', expect_ok=True, name=None):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    name = name or module
    d = ctx.path('tlc-%s-%d' % (name, random.getrandbits(40)), '')
    for f in glob.glob(SPEC + '/*.tla'):
        shutil.copy(f, d)
    with open(d + 'M.cfg', 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, min(workers, 4)), '-cp', TLA, 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', d + 'meta', '-config', 'M.cfg', *args, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + name)
    out = p.stdout
    r = TlcResult()
    r.out, r.rc = out, p.returncode
    m = re.findall(r'^(?:Progress.*: )?([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found(?: \([^)]*\))?, ([\d,]+) states left', out, re.M)
    r.generated = int(m[-1][0].replace(',', '')) if m else 0
    r.distinct = int(m[-1][1].replace(',', '')) if m else 0
    r.violated = None
    mm = re.search(r'Error: Invariant (\S+) is violated|Error: Action property (\S+) .*is violated|Error: (Temporal) properties were violated|Error: (Deadlock) reached|Property (\S+) is violated', out)
    if mm:
        r.violated = next(x for x in mm.groups() if x)
    elif 'No error has been found' not in out and '-simulate' not in args:
        raise CheckError('TLC failed on %s:\n%s' % (name, out[-4000:] + p.stderr[-1000:]))
    if expect_ok and r.violated:
        raise CheckError('specification %s violates %s:\n%s' % (name, r.violated, out[-5000:]))
    shutil.rmtree(d, True)
    return r


def check_design(ctx, module, cfg, mutations=(), env=None, heap='6g', timeout=840, workers=NCPU):
    """Exhaustive check of a design; each mutation (label, cfg) must be flagged (non-vacuity)."""
    r = tlc(ctx, module, cfg, env, heap=heap, timeout=timeout, workers=workers)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.extra.setdefault('design', []).append(dict(module=module, distinct=r.distinct, generated=r.generated, constants=cfg.split('CONSTANTS')[-1].strip()[:300]))
    if mutations:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            fs = [(l, ex.submit(tlc, ctx, module, c, env, 2, (), timeout, '2g', False, module + '-' + l)) for l, c in mutations]
            for l, f in fs:
                if not f.result().violated:
                    raise CheckError('mutation %s of %s is not flagged by the rules' % (l, module))
        ctx.extra.setdefault('mutations_flagged', []).extend(l for l, _ in fs)
    return r


def validate(ctx, module, traces, consts='', heap='8g', timeout=800, chunk=60000):
    """Feed traces (dicts with 'ev' lists) to spec/<module>; returns (trace, line, tlc output) of a rejection or None."""
    # chunks by total number of events
    groups, cur, n = [], [], 0
    for t in traces:
        cur.append(t)
        n += len(t['ev']) + 1
        if n > chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    cfg = 'SPECIFICATION TraceSpec\nINVARIANT PropertyHolds\nCHECK_DEADLOCK FALSE\n' + consts
    for g in groups:
        f = ctx.path('traces-%s.ndjson' % module)
        with open(f, 'w') as fh:
            for t in g:
                fh.write(json.dumps(t, separators=(',', ':')) + '\n')
        r = tlc(ctx, module, cfg, dict(TRACES=f, PROP=ctx.prop), heap=heap, timeout=timeout, expect_ok=False)
        ctx.states += r.distinct
        ctx.transitions += r.generated
        ctx.traces += len(g)
        if r.violated:
            t = [int(x) for x in re.findall(r'^/\\ t = (\d+)', r.out, re.M)][-1]
            l = [int(x) for x in re.findall(r'^/\\ l = (\d+)', r.out, re.M)][-1]
            return g[t - 1], l - 1, r.out
        want = sum(len(t['ev']) + 1 for t in g)
        if r.distinct != want:
            raise CheckError('%s explored %d of %d trace states' % (module, r.distinct, want))
    return None


def again(run, group, alone, err):
    """A run crashed or hung (run returns not None then): it counts when it does so again, alone or after the ones before it."""
    for c in (alone, group):
        if c and run(c) is not None:
            return c
    raise CheckError('a run failed once: %s %s' % (str(alone)[:2000], err))


def run_parallel(fn, items, n=NCPU):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
