"""Concrete runs of the real checker.

The proofs decide the properties; these runs of the binary built from the
current source (a) turn a failed obligation into a failing input, (b) stand
in, labelled bounded, for functions outside the reach of the verifier, and
(c) validate the assumed contracts against the real code.
"""
import os, re, subprocess, shutil, hashlib, json, random, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
JOBS = min(8, os.cpu_count() or 4)


SAN = {'ASAN_OPTIONS': 'alloc_dealloc_mismatch=0:detect_leaks=0'}


class BuildError(Exception):
    pass


def build(dst, flags=('-O1',), name='ethos'):
    """compile the current source of the checker outside /repo"""
    src = os.path.join(REPO, 'src')
    srcs = []
    for r, _, fs in os.walk(src):
        srcs += [os.path.join(r, f) for f in fs if f.endswith('.cpp')]
    objs, cmds = [], []
    od = os.path.join(dst, name + '.o')
    os.makedirs(od, exist_ok=True)
    for s in sorted(srcs):
        o = os.path.join(od, os.path.relpath(s, src).replace('/', '_') + '.o')
        objs.append(o)
        cmds.append(['g++', '-std=gnu++17', '-w', *flags, '-I' + src, '-c', s, '-o', o])

    def one(c):
        p = subprocess.run(c, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[:2000])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, cmds))
    exe = os.path.join(dst, name)
    p = subprocess.run(['g++', *flags, *objs, '-lgmpxx', '-lgmp', '-o', exe], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[:2000])
    shutil.rmtree(od)
    return exe


class Case:
    """one run of the checker and the verdict the property demands

    checks: independent lines appended to the prelude, all of which must be
    accepted (used to batch many positive checks into one run)."""
    __slots__ = ('files', 'args', 'stdin', 'expect', 'what', 'checks', 'prelude', 'main', 'kind', 'post', 'san', 'env')

    def __init__(self, expect, what, text=None, files=None, args=(), stdin=None, main='main.eo', prelude='', checks=None, post=None):
        self.post = post
        self.san, self.env = None, {}
        self.expect, self.what = expect, what
        self.files = dict(files or {})
        if text is not None:
            self.files[main] = text
        self.args, self.stdin, self.main = list(args), stdin, main
        self.prelude, self.checks = prelude, checks


OUT = {'correct': 'correct', 'incomplete': 'incomplete'}


class Runner:
    def __init__(self, exe, scratch, timeout=20):
        self.exe, self.dir, self.timeout = exe, scratch, timeout
        self.n = 0
        self.runs = 0
        self.checks = 0
        self.fails = []          # (case, got, output)
        self.samples = []
        self.t = 0.0

    def run(self, case, files=None):
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            for n, t in (files or case.files).items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(t if isinstance(t, bytes) else t.encode('latin1'))
            cmd = [self.exe] + case.args + ([] if case.stdin is not None else [case.main])
            try:
                inp = case.stdin
                if isinstance(inp, str):
                    inp = inp.encode('latin1')
                p = subprocess.run(cmd, cwd=d, input=inp, stdin=subprocess.DEVNULL if inp is None else None,
                                   capture_output=True, timeout=self.timeout, env=None if case.san is None else {**os.environ, **SAN, **case.env})
            except subprocess.TimeoutExpired:
                return ('no memory error' if case.san == 'only' else 'timeout'), ''
            out = p.stdout.decode('latin1') + p.stderr.decode('latin1')
            self.runs += 1
            if case.san:
                m = re.search(r'ERROR: AddressSanitizer: (\S+)', out)
                if m and m.group(1) != 'stack-overflow':
                    return 'memory error: ' + m.group(1), out[m.start():][:4000]
                if case.san == 'only':
                    return 'no memory error', ''
            return classify(p.returncode, p.stdout.decode('latin1')), out[-4000:]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def batch(self, case):
        """positive checks together; on failure one by one"""
        if case.checks is None:
            got, out = self.run(case)
            self.checks += 1
            if got == case.expect and case.post:
                m = case.post(out)
                if m:
                    return [(case, m, out)]
            return [(case, got, out)] if got != case.expect else []
        self.checks += len(case.checks)
        got, out = self.run(case, {**case.files, case.main: case.prelude + '\n' + '\n'.join(c[1] for c in case.checks) + '\n'})
        if got == case.expect:
            return []
        bad = []
        todo = list(case.checks)
        # bisect, then report the single checks
        def rec(l):
            if len(bad) >= 3:
                return
            g, o = self.run(case, {**case.files, case.main: case.prelude + '\n' + '\n'.join(c[1] for c in l) + '\n'})
            if g == case.expect:
                return
            if len(l) == 1:
                c = Case(case.expect, l[0][0], text=case.prelude + '\n' + l[0][1] + '\n', files=case.files, args=case.args, main=case.main)
                bad.append((c, g, o))
                return
            m = len(l) // 2
            rec(l[:m])
            rec(l[m:])
        rec(todo)
        if not bad:
            c = Case(case.expect, 'combination of checks', text=case.prelude + '\n' + '\n'.join(x[1] for x in todo) + '\n',
                     files=case.files, args=case.args, main=case.main)
            bad.append((c, got, out))
        return bad

    def all(self, cases, stop=5, deadline=None):
        t = time.time()
        with ThreadPoolExecutor(JOBS) as ex:
            it = iter(cases)
            futs = []
            done = False

            def fill():
                nonlocal done
                while len(futs) < JOBS * 4 and not done:
                    if deadline and time.time() > deadline:
                        done = True
                        break
                    try:
                        c = next(it)
                    except StopIteration:
                        done = True
                        break
                    if len(self.samples) < 4 or random.random() < 0.002 and len(self.samples) < 8:
                        self.samples.append(sample(c))
                    futs.append(ex.submit(self.batch, c))
            fill()
            while futs:
                r = futs.pop(0).result()
                self.fails += r
                if len(self.fails) >= stop:
                    done = True
                fill()
        self.t += time.time() - t
        return self.fails


def sample(c):
    if c.checks:
        return {'what': c.checks[0][0], 'text': c.checks[0][1], 'expect': c.expect, 'checks_in_run': len(c.checks)}
    return {'what': c.what, 'text': (c.files.get(c.main) or str(c.stdin))[-400:] if not isinstance(c.files.get(c.main), bytes) else repr(c.files[c.main][-200:]), 'expect': c.expect}


def classify(rc, out):
    if rc == 0:
        l = out.strip().splitlines()
        l = l[-1].strip() if l else ''
        return OUT.get(l, 'other:' + l[:60])
    for w in OUT:
        if any(x.strip() == w for x in out.splitlines()):
            return 'reported %s but exit status %d' % (w, rc)
    if rc in (-11, 139, -8, 136, -4, 132):
        return 'crash (signal %d)' % (-rc if rc < 0 else rc - 128)
    return 'error'


def write_replay(prop, case, got, out, extra=''):
    h = hashlib.sha1((prop + case.what + json.dumps({k: str(v) for k, v in case.files.items()}, sort_keys=True)).encode('utf8', 'replace')).hexdigest()[:12]
    d = os.path.join(VERIF, 'evidence', 'replay', '%s-%s' % (prop, h))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in case.files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode('latin1'))
    if case.stdin is not None:
        with open(os.path.join(d, 'stdin'), 'wb') as f:
            f.write(case.stdin if isinstance(case.stdin, bytes) else case.stdin.encode('latin1'))
    cmd = 'ethos ' + ' '.join(case.args + ([] if case.stdin is not None else [case.main])) + ('' if case.stdin is None else ' < stdin')
    with open(os.path.join(d, 'README'), 'w', encoding='utf8', errors='replace') as f:
        f.write('property: %s\nwhat: %s\nrun (in this directory, with the checker built from the current source): %s\nexpected: %s\nobserved: %s\n\n%s\n%s\n'
                % (prop, case.what, cmd, case.expect, got, out, extra))
    return d
