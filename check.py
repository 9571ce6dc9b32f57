#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property on /repo's working tree.

Builds the library and the harness with sanitizers, runs seeded cases in
parallel subprocesses and turns what the monitors report into a verdict.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not answer."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
from checks import CHECKS, LEVELS

JOBS = max(2, os.cpu_count() or 8)
CASE_TIMEOUT = 60
REPO = '/repo'
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=77:second_deadlock_stack=1'
ENV['LSAN_OPTIONS'] = 'exitcode=77'

BUILDS = {
    'asan': [],
    'tsan': ['SAN=-fsanitize=thread'],
    'plain': ['SAN=', 'OPT=-O1'],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sources():
    r = {}
    for top in (REPO + '/source', REPO + '/include', HERE + '/harness', HERE + '/Makefile'):
        walk = os.walk(top) if os.path.isdir(top) else [(os.path.dirname(top), [], [os.path.basename(top)])]
        for d, _, fs in walk:
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    r[p] = hashlib.sha256(h.read()).hexdigest()
    return r


def drop_stale(out):
    """Objects are rebuilt when the content of what they come from changed, whatever the dates of the files say."""
    now, stamp = sources(), out + '/.sources'
    try:
        with open(stamp) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    changed = [] if old is None else [p for p in set(now) | set(old) if now.get(p) != old.get(p)]
    if old is None or any(not p.endswith('.cpp') for p in changed):
        changed = None
    if changed is None:
        shutil.rmtree(out + '/lib', ignore_errors=True)
        shutil.rmtree(out + '/h', ignore_errors=True)
    for p in changed or ():
        for base, sub in ((REPO + '/source/', 'lib/'), (HERE + '/harness/', 'h/')):
            if p.startswith(base):
                try:
                    os.remove(os.path.join(out, sub + p[len(base):-4] + '.o'))
                except OSError:
                    pass
    if changed is None or changed:
        try:
            os.remove(out + '/mon')
        except OSError:
            pass
    with open(stamp + '.new', 'w') as f:
        json.dump(now, f)
    os.replace(stamp + '.new', stamp)


def build(kind):
    out = 'build/' + kind
    os.makedirs(out, exist_ok=True)
    with open(out + '/.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = ['make', '-s', '-j%d' % JOBS, 'OUT=' + out] + BUILDS[kind]
        drop_stale(out)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # a stale dependency file (a removed header) is cured by starting afresh
            shutil.rmtree(out + '/lib', ignore_errors=True)
            shutil.rmtree(out + '/h', ignore_errors=True)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-4000:])
            log('build failed')
            sys.exit(2)
        return os.path.join(HERE, out, 'mon')


def crash_signature(text, rc):
    for pat in (r'SUMMARY: \w+Sanitizer: ([\w\-]+)[^\n]*? in ([\w:~<>, ]+)', r'SUMMARY: \w+Sanitizer: ([\w\-]+)()', r'runtime error: ([^\n]{1,80})()'):
        m = re.search(pat, text)
        if m:
            frame = ''
            for f in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n(]+)', text):
                if 'crg::' in f or 'rungrf' in f or 'RenderGraph' in f:
                    frame = f.strip()
                    break
            return 'crash:' + m.group(1).strip() + ((':' + frame) if frame else '')
    if 'terminate called' in text:
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        return 'crash:terminate:' + (m.group(1) if m else '')
    return 'crash:signal%d' % rc


class Runner:
    def __init__(self, exe, work, leaks):
        self.exe, self.work, self.leaks = exe, work, leaks
        self.env = dict(ENV)
        self.env['ASAN_OPTIONS'] = ENV['ASAN_OPTIONS'] % (1 if leaks else 0)
        self.lock = threading.Lock()
        self.viols, self.stats, self.hashes, self.samples = [], {}, set(), []
        self.cases = self.nontrivial = 0
        self.broken = []
        self.crashes = 0

    def spawn(self, args):
        return subprocess.Popen([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=self.env, cwd=self.work)

    def confirm(self, name, seed):
        """a crash or a hang only counts if its seed does it again alone"""
        p = self.spawn(['one', name, str(seed)])
        try:
            _, err = p.communicate(timeout=CASE_TIMEOUT * 2)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return 'hang', 'does not end within %d s' % (CASE_TIMEOUT * 2)
        if p.returncode not in (0, 1):
            return crash_signature(err, p.returncode), err[-3000:]
        return None, ''

    def batch(self, k, name, a, b):
        prog = os.path.join(self.work, 'progress.%d' % k)
        while a < b:
            with self.lock:
                if self.crashes >= 6:
                    return
            p = self.spawn(['run', name, str(a), str(b), prog])
            res = {}
            t = threading.Thread(target=lambda: res.update(zip(('out', 'err'), p.communicate())))
            t.start()
            last, since, hung = None, time.time(), False
            while t.is_alive():
                t.join(1)
                try:
                    cur = open(prog).read().strip()
                except OSError:
                    cur = None
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > CASE_TIMEOUT:
                    hung = True
                    p.kill()
                    t.join()
            self.absorb(res.get('out') or '')
            if p.returncode == 0:
                return
            try:
                seed = int(open(prog).read().strip())
            except (OSError, ValueError):
                with self.lock:
                    self.broken.append('%s: %s' % (name, (res.get('err') or '')[-1500:]))
                return
            ended = '\nE\t' in (res.get('out') or '')
            with self.lock:
                self.crashes += 1
            if ended and not hung:
                # everything ran, the process failed at its end: memory never released
                sig, err = crash_signature(res.get('err') or '', p.returncode), (res.get('err') or '')[-3000:]
                if self.leaks and 'LeakSanitizer' in (res.get('err') or ''):
                    sig = self.leak_signature(res.get('err'))
                    seed = self.bisect_leak(name, a, b)
                self.add(name, seed, 'crash', sig, err)
                return
            sig, err = self.confirm(name, seed)
            if sig is None and not hung:
                sig, err = crash_signature(res.get('err') or '', p.returncode), (res.get('err') or '')[-3000:]
                if p.returncode < 0 and p.returncode in (-9, -15):
                    sig = None      # ended from outside
                    with self.lock:
                        self.broken.append('%s seed %d: killed' % (name, seed))
            if sig:
                self.add(name, seed, 'crash', sig, err)
            with self.lock:
                self.cases += seed + 1 - a
            a = seed + 1

    @staticmethod
    def leak_signature(err):
        m = re.search(r'#\d+ 0x[0-9a-f]+ in (crg::[^\n(]+)', err)
        return 'leak:' + (m.group(1).strip() if m else 'memory')

    def bisect_leak(self, name, a, b):
        for s in range(a, min(b, a + 40)):
            p = self.spawn(['one', name, str(s)])
            try:
                p.communicate(timeout=CASE_TIMEOUT)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
            if p.returncode not in (0, 1):
                return s
        return a

    def add(self, name, seed, cat, sig, msg):
        with self.lock:
            self.viols.append((name, seed, cat, sig, msg))

    def absorb(self, out):
        with self.lock:
            for line in out.split('\n'):
                f = line.split('\t')
                if f[0] == 'V' and len(f) >= 6:
                    self.viols.append((f[1], int(f[2]), f[3], f[4], f[5]))
                elif f[0] == 'S' and len(f) >= 3:
                    self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
                elif f[0] == 'H':
                    self.hashes.add(f[1])
                elif f[0] == 'M' and len(f) >= 3:
                    if len(self.samples) < 400:
                        self.samples.append((int(f[1]), f[2]))
                elif f[0] == 'E':
                    self.cases += int(f[1])
                    self.nontrivial += int(f[2])


def known_findings():
    r = []
    try:
        for line in open('known_findings.txt'):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line)
            if m:
                r.append((m.group(1), m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return r


def main():
    if sys.argv[1] == '--build':
        for kind in sys.argv[2:]:
            build(kind)
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    spec = CHECKS[pid]
    t0 = time.time()
    kinds = spec.get('builds', ['asan'])
    exes = {k: build(k) for k in kinds}
    t1 = time.time()
    log('build: %.1f s' % (t1 - t0))
    work = os.path.join(HERE, 'build', 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    runners = {k: Runner(exes[k], work, spec.get('leaks', False) and k == 'asan') for k in kinds}
    jobs = []
    mult = spec.get('thorough', 25) if tier == 'thorough' else 1
    for c in spec['cases']:
        name, count = c[0], c[1]
        kind = c[2] if len(c) > 2 else kinds[0]
        count *= mult
        base = (seed % 1000003) * 10000000
        step = max(1, min(400, (count + JOBS - 1) // JOBS))
        a = 0
        while a < count:
            b = min(count, a + step)
            jobs.append((kind, name, base + a, base + b))
            a = b
    # biggest first is unknown: interleave
    jobs.sort(key=lambda j: (j[2], j[1]))
    it = iter(enumerate(jobs))
    lock = threading.Lock()

    def worker():
        while True:
            with lock:
                n = next(it, None)
            if n is None:
                return
            k, (kind, name, a, b) = n
            runners[kind].batch(k, name, a, b)

    par = spec.get('jobs', JOBS)
    ts = [threading.Thread(target=worker) for _ in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(work, ignore_errors=True)

    viols, stats, hashes, samples, cases, nontrivial, broken = [], {}, set(), [], 0, 0, []
    for r in runners.values():
        viols += r.viols
        hashes |= r.hashes
        samples += r.samples
        cases += r.cases
        nontrivial += r.nontrivial
        broken += r.broken
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
    pats = [re.compile(p) for p in spec['match']] + [re.compile(r'(crash|exception)\|')]
    known = [k for k in known_findings() if k[0] == pid]
    hits, seen_known = {}, {}
    for v in viols:
        key = v[2] + '|' + v[3]
        if not any(p.match(key) for p in pats):
            continue
        kf = next((k for k in known if k[1] == key.replace(' ', '_')), None)
        if kf:
            seen_known[kf] = seen_known.get(kf, 0) + 1
            continue
        if key not in hits or v[1] < hits[key][1]:
            hits[key] = v
    samples.sort()
    picked = [{'case_seed': s, 'case': t} for s, t in samples[:: max(1, len(samples) // 4)][:4]]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'],
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(hashes),
            'rule': spec['rule'],
            'samples': picked,
            'observed': {k: stats[k] for k in sorted(stats)},
            'workloads': {c[0]: c[1] * mult for c in spec['cases']},
            'monitored': spec['match'],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(hits),
    }
    os.makedirs('evidence', exist_ok=True)
    with open('evidence/%s.json' % pid, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    log('%d cases, %d distinct, %d violations, %.1f s' % (cases, len(hashes), len(hits), time.time() - t0))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if hits:
        os.makedirs('replay', exist_ok=True)
        for n, (key, v) in enumerate(sorted(hits.items(), key=lambda kv: kv[1][1])):
            if n >= 20:
                break
            path = 'replay/%s-%d.json' % (pid, n)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': v[0], 'seed': v[1], 'category': v[2], 'signature': v[3], 'what': v[4],
                           'replay': 'cd /verif && make -s -j8 && build/asan/mon one %s %d' % (v[0], v[1])}, f, indent=1)
                f.write('\n')
            print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, path)))
            print('  %s: %s' % (key, v[4][:400]))
        sys.exit(1)
    if broken:
        for b in broken[:5]:
            log('broken run: ' + b)
        sys.exit(2)
    for k in spec.get('needs', []):
        if not stats.get(k):
            log('vacuous: no "%s" was observed' % k)
            sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
