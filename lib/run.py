"""Building the runner from /repo's current tree, and running cases in it."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSCM_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'c')
BUILD = os.path.join(VERIF, 'build')


class HarnessError(Exception):
    """The harness itself failed: the check must end with an error exit."""


def _tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)) if os.path.isdir(d) else [(os.path.dirname(d), [], [os.path.basename(d)])]:
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')
    return h.hexdigest()[:20]


def build(variant='plain'):
    """Returns the path of the runner built from the current sources."""
    os.makedirs(BUILD, exist_ok=True)
    key = _tree_hash([SRC, os.path.join(VERIF, 'harness'), os.path.join(REPO, 'src', 'main.cc')])
    out = os.path.join(BUILD, f'{variant}-{key}')
    with open(os.path.join(BUILD, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'ok')):
            return os.path.join(out, 'runner')
        for d in os.listdir(BUILD):          # older builds of this variant
            if d.startswith(variant + '-') and d != os.path.basename(out):
                p = os.path.join(BUILD, d)
                if time.time() - os.path.getmtime(p) > 1800:
                    shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        r = subprocess.run(['make', '-s', '-j8', '-f', 'Makefile', f'OUT={out}', f'VARIANT={variant}', f'SRC={SRC}'],
                           cwd=os.path.join(VERIF, 'harness'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors='replace')[-3000:])
            raise HarnessError('build failed')
        for f in os.listdir(out):
            if f.endswith('.o'):
                os.unlink(os.path.join(out, f))
        open(os.path.join(out, 'ok'), 'w').close()
    return os.path.join(out, 'runner')


def tool(variant='plain'):
    """The command line tool, built from the current sources."""
    return os.path.join(os.path.dirname(build(variant)), 'pscm')


class Case:
    __slots__ = ('id', 'mode', 'payload', 'period', 'seed', 'poison', 'timeout', 'meta')

    def __init__(self, payload, mode='auto', period=0, seed=0, poison=0, timeout=20, meta=None, files=None):
        """mode auto: each form as a text of its own, or in a file of its own (and with source locations)"""
        if isinstance(payload, list):
            payload = '\x1e'.join(payload)
        if isinstance(payload, str):
            payload = payload.encode('latin-1')
        if files:
            payload = ''.join(f'\x1d{n}\x1f{t}' for n, t in files.items()).encode('latin-1') + b'\x1d\x1d' + payload
        if mode == 'auto':
            mode = 'filed' if zlib.crc32(payload) & 1 else 'forms'
        self.payload = payload
        self.mode, self.period, self.seed, self.poison, self.timeout, self.meta = \
            mode, period, seed, poison, timeout, meta
        self.id = None

    def text(self):
        return self.payload.decode('latin-1').replace('\x1e', '\n').replace('\x1d', '\n;; ').replace('\x1f', '\n')


class Result:
    __slots__ = ('status', 'done', 'out', 'err', 'stats', 'events', 'skipped')
    # stats: forms allocs alloc_bytes collections forced reclaimed reused live heap maxrss(kB)

    @property
    def signal(self):
        return self.status & 0x7f

    @property
    def exitcode(self):
        return (self.status >> 8) & 0xff

    @property
    def timed_out(self):
        return self.signal == 14

    def ended(self):
        """done | exit N | signal N"""
        if self.done:
            return 'done'
        if self.signal:
            return f'signal {self.signal}'
        return f'exit {self.exitcode}'


def parse_events(out):
    """Splits captured stdout into events:
    ('O', text) output; ('V', text) value; ('N',) none; ('X', key, msg) error;
    ('P', key, msg) parse error; ('I', catches, winds, depth) state; ('A', text) api."""
    ev = []
    i = 0
    n = len(out)
    while i < n:
        j = out.find('\x02', i)
        if j < 0:
            j = n
        if j > i:
            ev.append(('O', out[i:j]))
        if j >= n:
            break
        k = out.find('\x04', j)
        if k < 0:
            ev.append(('T', out[j + 1:]))   # truncated
            break
        kind, body = out[j + 1:j + 2], out[j + 2:k]
        if kind in 'XP':
            key, _, msg = body.partition('\x03')
            ev.append((kind, key, msg))
        elif kind == 'I':
            ev.append(('I',) + tuple(int(x) for x in body.split()))
        elif kind == 'N':
            ev.append(('N',))
        else:
            ev.append((kind, body))
        i = k + 1
    return ev


ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LC_ALL': 'C.UTF-8', 'HOME': '/root',
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:'
                    'handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=4096:use_sigaltstack=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0',
    'ASAN_SYMBOLIZER_PATH': shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or '/usr/lib/llvm-18/bin/llvm-symbolizer',
}
STACK = 1 << 30


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (STACK, STACK))


def _run_shard(runner, cases, workdir):
    spec = os.path.join(workdir, 'spec')
    outp = os.path.join(workdir, 'res')
    with open(spec, 'wb') as f:
        for c in cases:
            f.write(f'case {c.id} {c.mode} {c.period} {c.seed} {int(c.poison)} {c.timeout} {len(c.payload)}\n'.encode())
            f.write(c.payload + b'\n')
    scratch = os.path.join(workdir, 's')
    os.makedirs(scratch, exist_ok=True)
    p = subprocess.run([runner, spec, outp, scratch], env=ENV, preexec_fn=_limits,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    res = {}
    if os.path.exists(outp):
        with open(outp, 'rb') as f:
            while True:
                line = f.readline()
                if not line:
                    break
                t = line.split()
                if t[0] != b'res':
                    raise HarnessError('bad result stream')
                r = Result()
                r.skipped = False
                r.status, r.done = int(t[2]), int(t[3])
                r.stats = [int(x) for x in t[7:17]]
                o = f.read(int(t[4])); f.read(1)
                e = f.read(int(t[5])); f.read(1)
                r.out, r.err = o.decode('latin-1'), e.decode('latin-1')
                r.events = parse_events(r.out)
                res[t[1].decode()] = r
    if p.returncode:
        # the runner itself (initialisation included) runs the code under test
        return res, (p.returncode, p.stderr.decode('latin-1')[-2000:])
    if sum(r.timed_out for r in res.values()) >= 2:      # the runner gave up on this shard
        for c in cases:
            if c.id not in res:
                r = Result()
                r.skipped, r.status, r.done, r.out, r.err, r.stats, r.events = True, 0, 0, '', '', [0] * 10, []
                res[c.id] = r
    return res, None


class InitFailure(Exception):
    """The interpreter cannot even be initialised."""


def run_cases(runner, cases, jobs=8):
    """Runs all cases; returns results in the order of the cases."""
    for i, c in enumerate(cases):
        c.id = str(i)
    if not cases:
        return []
    base = tempfile.mkdtemp(prefix='pscmv-')
    try:
        shards = [cases[i::jobs * 4] for i in range(jobs * 4)]
        shards = [s for s in shards if s]

        def one(k):
            d = os.path.join(base, str(k))
            os.makedirs(d)
            return _run_shard(runner, shards[k], d)
        allres = {}
        failure = None
        with ThreadPoolExecutor(jobs) as ex:
            for res, fail in ex.map(one, range(len(shards))):
                allres.update(res)
                failure = failure or fail
        if failure:
            if not allres:
                raise InitFailure(f'runner ended with {failure[0]}: {failure[1]}')
            raise HarnessError(f'runner ended with {failure[0]}: {failure[1]}')
        out = []
        for c in cases:
            if c.id not in allres:
                raise HarnessError('missing result')
            out.append(allres[c.id])
        return out
    finally:
        shutil.rmtree(base, ignore_errors=True)
