"""Driver used by every check: builds harnesses against /repo's working tree, runs them, judges what the
monitors inside them reported, writes the evidence file, prints VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures as cf
import hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
NCPU = max(2, min(8, os.cpu_count() or 8))

def asm_srcs(flavour='x86_64_sysv_elf_gas'):
    return [f'{REPO}/src/fcontext.cpp', f'{REPO}/src/posix/stack_traits.cpp'] + \
           [f'{REPO}/src/asm/{k}_{flavour}.S' for k in ('make', 'jump', 'ontop')]
def winfib_srcs():
    return [f'{REPO}/src/fiber.cpp', f'{REPO}/src/continuation.cpp', f'{REPO}/src/windows/stack_traits.cpp']
def uctx_srcs():
    return [f'{REPO}/src/fiber.cpp', f'{REPO}/src/continuation.cpp', f'{REPO}/src/posix/stack_traits.cpp']

class Build:
    """One executable. impl: 'asm', 'uctx', 'seg' (segmented, ucontext), 'winfib' (Windows fibers through harness/winshim) or None (only the given sources)."""
    def __init__(self, name, srcs, impl='asm', cxx='g++', std='c++17', opt='-O1', flags=(), link=('-lpthread',),
                 libflags=None, must_compile=False, lib=True, shared=False, libcxx=None, libopt=None, libstd=None):
        self.name, self.impl, self.cxx, self.std, self.opt = name, impl, cxx, std, opt
        self.srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs]
        self.flags, self.link, self.must_compile = list(flags), list(link), must_compile
        self.libsrcs = ([] if not lib else uctx_srcs() if impl in ('uctx', 'seg') else asm_srcs() if impl == 'asm' else asm_srcs()[:2] if impl in ('macho', 'mspe') else winfib_srcs() if impl == 'winfib' else asm_srcs('i386_sysv_elf_gas')[2:] if impl == 'i386' else [])
        # the library as an object of its own (compiler, standard, optimisation and warnings may differ) or as a shared object
        self.split = shared or libcxx or libopt or libstd or libflags is not None
        self.shared, self.libcxx, self.libopt, self.libstd = shared, libcxx or cxx, libopt or opt, libstd or std
        self.libflags = list(self.flags if libflags is None else libflags)
        if impl in ('uctx', 'seg'): self.libflags = ['-DBOOST_USE_UCONTEXT'] + self.libflags
        if impl == 'seg': self.libflags = ['-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS'] + self.libflags
        if impl in ('uctx', 'seg'):
            self.flags = ['-DBOOST_USE_UCONTEXT'] + self.flags
        if impl == 'winfib':
            self.flags = ['-DBOOST_USE_WINFIB', f'-I{HARNESS}/winshim'] + self.flags; self.srcs.append(os.path.join(HARNESS, 'winshim/winshim.cpp'))
        if impl == 'seg':
            self.flags = ['-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS'] + self.flags
            self.link = ['-fsplit-stack'] + self.link
    def cmd(self, out):
        if self.impl == 'i386':        # freestanding 32 bit program: no 32 bit C library is installed
            return [self.cxx, '-m32', self.opt, '-g', '-ffreestanding', '-fno-pic', '-no-pie', '-fno-stack-protector', '-nostdlib', '-static',
                    '-mno-sse', f'-I{REPO}/include'] + self.flags + self.srcs + self.libsrcs + ['-o', out]
        if self.impl in ('macho', 'mspe'):     # other x86_64 ports, run here: their assembler files without the directives of the object format
            q = lambda l: ' '.join(shlex.quote(x) for x in l); ks = ('make', 'jump', 'ontop')
            if self.impl == 'macho':
                pre = ' && '.join(f'gcc -c -x assembler-with-cpp {q([x for x in self.flags if x.startswith("-D")])} -DPORT_FILE=\'"{REPO}/src/asm/{k}_x86_64_sysv_macho_gas.S"\' {HARNESS}/macho.S -o "$1.{k}.o"' for k in ks)
                post = ['-Wl,' + ','.join(f'--defsym={x}=_{x}' for x in ('make_fcontext', 'jump_fcontext', 'ontop_fcontext')) + ',--defsym=__exit=_exit']; objs = ' '.join(f'"$1.{k}.o"' for k in ks)
            else:
                pre = ' && '.join('{ sed -E ' + shlex.quote(r'/^\.(def|seh_|file|globl)/d; /^\.section \.drectve/,$d; s/(make|jump|ontop)_fcontext/ms_\1_fcontext/g; s/call +_exit/call ms_exit/') + f' {REPO}/src/asm/{k}_x86_64_ms_pe_gas.asm; '
                                  + f'echo ".globl ms_{k}_fcontext"; echo ".section .note.GNU-stack,\\"\\",@progbits"; }} > "$1.{k}.S"' for k in ks)
                post = []; objs = ' '.join(f'"$1.{k}.S"' for k in ks) + f' {HARNESS}/mspe.S {HARNESS}/mspe.cpp'
            main = q([self.cxx, f'-std={self.std}', self.opt, '-g', f'-I{REPO}/include', f'-I{HARNESS}'] + (['-DMSPE', '-DMIN_REGION=512'] if self.impl == 'mspe' else []) + self.flags + self.srcs + self.libsrcs)
            return ['bash', '-c', f'{pre} && {main} {objs} -o "$1" {q(post + self.link)}', 'build', out]
        if self.split:
            q = lambda l: ' '.join(shlex.quote(x) for x in l)
            lib = q([self.libcxx, f'-std={self.libstd}', self.libopt, '-g', '-fPIC', f'-I{REPO}/include'] + self.libflags)
            if self.shared: one = f'{lib} -fvisibility=hidden -fvisibility-inlines-hidden -DBOOST_CONTEXT_SOURCE -DBOOST_CONTEXT_DYN_LINK=1 -shared {q(self.libsrcs)} -o "$1.so"'; obj = '"$1.so"'
            else: one = ' && '.join(f'{lib} -DBOOST_CONTEXT_SOURCE -c {shlex.quote(s)} -o "$1.{i}.o"' for i, s in enumerate(self.libsrcs)) + ' && rm -f "$1.a" && ar cr "$1.a" "$1".*.o'; obj = '"$1.a"'
            main = q([self.cxx, f'-std={self.std}', self.opt, '-g', f'-I{REPO}/include', f'-I{HARNESS}'] + (['-DBOOST_CONTEXT_DYN_LINK=1', '-fvisibility=hidden'] if self.shared else []) + self.flags + self.srcs)
            return ['bash', '-c', f'{one} && {main} {obj} -o "$1" {q(self.link)}', 'build', out]
        c = [self.cxx] + ([f'-std={self.std}'] if self.std else []) + [self.opt, '-g', f'-I{REPO}/include', f'-I{HARNESS}']
        c += self.flags + self.srcs + self.libsrcs + ['-o', out] + self.link
        return c

class Run:
    def __init__(self, name, build, args=(), env=None, timeout=120, expect='ok', wrap=(), group=None, tolerate=()):
        """expect: 'ok' (exit 0), or a callable(rc, out, err) -> None or failure text."""
        self.name, self.build, self.args, self.env = name, build, [str(a) for a in args], env or {}
        self.timeout, self.expect, self.wrap, self.group = timeout, expect, list(wrap), group

class Result: pass

def _run(cmd, timeout, env=None, cwd=None):
    t0 = time.time()
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate(); to = True
    return p.returncode, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace'), to, time.time() - t0

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.builds, self.runs, self.post = {}, [], []
        self.violations, self.errors, self.results = [], [], []
        self.tmp = tempfile.mkdtemp(prefix=f'vctx-{pid}-')
        self.stats, self.samples = {}, []
        self.level = 'exploration'; self.skipped = 0
        self.meta = {}
        self.extra = {}
    # ---- description
    def build(self, *a, **k):
        b = Build(*a, **k); assert b.name not in self.builds, b.name
        self.builds[b.name] = b
        return b
    def run(self, *a, **k):
        r = Run(*a, **k); self.runs.append(r); return r
    def sub(self, i):                       # seed for run number i
        return int(hashlib.sha256(f'{self.seed}:{self.pid}:{i}'.encode()).hexdigest()[:12], 16)
    def scale(self, q, t): return q if self.quick else t
    # ---- execution
    def _build(self, b):
        out = os.path.join(self.tmp, b.name)
        rc, so, se, to, dt = _run(b.cmd(out), 600, cwd=self.tmp)
        b.out, b.rc, b.log, b.secs = out, rc, se, dt
        return b
    def _exec(self, r):
        cmd = r.wrap + [r.build.out if isinstance(r.build, Build) else r.build] + r.args
        res = Result(); res.run = r; res.attempts = 0
        env = {'ASAN_OPTIONS': 'exitcode=99:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1',
               'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98:print_stacktrace=1', 'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1:atexit_sleep_ms=0',
               'LSAN_OPTIONS': 'exitcode=96', 'TMPDIR': self.tmp}
        env.update(r.env)
        while True:
            res.attempts += 1
            if self.stop or time.time() > self.deadline: res.rc = None; return res    # a violation was found already (or no time is left)
            rc, out, err, to, dt = _run(cmd, r.timeout * res.attempts if res.attempts < 3 else min(r.timeout * 3, max(60, self.t0 + 840 - time.time())), env, cwd=self.tmp)
            res.rc, res.out, res.err, res.to, res.secs, res.cmd, res.env = rc, out, err, to, dt, cmd, env
            # a time-out or a kill from outside is tried once more before it is believed
            # (and a third time when the machine is overloaded)
            more = 2 if os.getloadavg()[0] < 1.5 * NCPU else 3
            if (to or rc in (-signal.SIGKILL, -signal.SIGALRM)) and res.attempts < more and not (to and self.stop): continue
            return res
    def judge(self, res):
        r = res.run
        if res.to: return ('hang', f'no result within {r.timeout * res.attempts} s (twice)')
        if res.rc == -signal.SIGKILL: return ('error', 'killed from outside (memory?)')
        if callable(r.expect):
            x = r.expect(res.rc, res.out, res.err)
            return None if x is None else ('oracle', x)
        if res.rc == 0:
            # a context that is entered or left wrongly may end the process with status 0 (end of a raw context-function)
            if isinstance(r.build, Build) and any(x.startswith(HARNESS) for x in r.build.srcs) and not re.search(r'^STAT ', res.out, re.M):
                return ('crash', 'the process ended with status 0 before the workload was complete; ' + res.out[-200:])
            return None
        if res.rc == 77:
            m = re.search(r'(?:ORACLE-FAIL|VIOL) (.*)', res.out)
            return ('oracle', m.group(1) if m else 'oracle failed')
        if res.rc == 78:                    # harness could not set up its experiment
            return ('error', 'harness: ' + (res.out + res.err)[-400:])
        m = re.search(r'(ERROR: \w+Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error:[^\n]*|SUMMARY: [^\n]*)', res.err)
        if m: return ('sanitizer', m.group(1))
        if 'valgrind' in r.wrap:
            m = re.search(r'^==\d+== ((?:Invalid|Conditional|Use of|Syscall|Mismatched|Source and|Jump)[^\n]*(?:\n[^\n]*){0,5})', res.err, re.M)
            if m: return ('sanitizer', re.sub(r'\s*\n==\d+==\s*', ' / ', m.group(1))[:500])
        if res.rc < 0:
            try: n = signal.Signals(-res.rc).name
            except ValueError: n = str(-res.rc)
            return ('crash', f'died by {n}; ' + (res.err[-300:].replace('\n', ' ') if res.err else ''))
        return ('crash', f'unexpected exit status {res.rc}; ' + (res.out[-200:] + res.err[-300:]).replace('\n', ' '))
    def violation(self, kind, name, text, res=None, build=None):
        self.violations.append((kind, name, text, res, build))
    def execute(self):
        self.deadline = self.t0 + (500 if self.quick else 7200); self.stop = False
        # the builds must not be misled by the caller's environment
        for v in ('CPLUS_INCLUDE_PATH', 'CPATH', 'CXXFLAGS'): os.environ.pop(v, None)
        try:
            with cf.ThreadPoolExecutor(NCPU) as ex:
                bf = {ex.submit(self._build, b): b for b in self.builds.values()}
                rf = {}
                pend = list(self.runs)
                for f in cf.as_completed(bf):
                    b = f.result()
                    if b.rc != 0:
                        # another part of the Win32 API than the shim offers may be in use: nothing to be said then
                        if b.impl in ('winfib', 'macho', 'mspe') and not b.must_compile: self.extra.setdefault('not_built', []).append(b.name + ': ' + first_error(b.log))
                        elif b.must_compile: self.violation('compile', b.name, 'does not compile: ' + first_error(b.log), None, b)
                        else: self.errors.append(f'build {b.name} failed: {b.log[-1500:]}')
                        continue
                    for r in [x for x in pend if x.build is b]:
                        rf[ex.submit(self._exec, r)] = r
                for r in [x for x in pend if not isinstance(x.build, Build)]:
                    rf[ex.submit(self._exec, r)] = r
                for f in cf.as_completed(rf):
                    res = f.result()
                    if res.rc is None: self.skipped += 1; continue
                    self.results.append(res)
                    j = self.judge(res)
                    if j is None: self.collect(res)
                    elif j[0] == 'error': self.errors.append(f'run {res.run.name}: {j[1]}')
                    else: self.violation(j[0], res.run.name, j[1], res); self.stop = True
            if self.skipped and not self.violations: self.errors.append(f'{self.skipped} runs did not get their turn in time')
            for p in self.post: p(self)
        finally:
            pass
        rc = self.finish()
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc
    def collect(self, res):
        res.stats = {}
        for m in re.finditer(r'^STAT (\S+) (\d+)$', res.out, re.M):
            res.stats[m.group(1)] = res.stats.get(m.group(1), 0) + int(m.group(2))
        for k, v in res.stats.items(): self.stats[k] = self.stats.get(k, 0) + v
        for m in re.finditer(r'^SAMPLE (.*)$', res.out, re.M):
            if len([s for s in self.samples if s.startswith(res.run.name + ':')]) < 3 and len(self.samples) < 24:
                self.samples.append(f'{res.run.name}: {m.group(1)}')
    def need(self, key, minimum):
        """The monitors must have observed at least this much, otherwise the run proves nothing."""
        if not self.violations and self.stats.get(key, 0) < minimum:
            self.errors.append(f'monitors observed only {self.stats.get(key, 0)} {key} (need {minimum})')
    def replay(self, n, v):
        kind, name, text, res, build = v
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, f'replay-{self.pid}-{n}.sh')
        b = build or (res.run.build if res and isinstance(res.run.build, Build) else None)
        with open(path, 'w') as f:
            f.write('#!/bin/bash\n# property %s, run %s: %s: %s\n' % (self.pid, name, kind, text.replace('\n', ' ')))
            f.write('# exits non-zero while the violation is present\nD=$(mktemp -d); trap \'rm -rf "$D"\' EXIT\n')
            if b: f.write(' '.join(shlex.quote(x) for x in b.cmd('@OUT@')).replace('@OUT@', '"$D/prog"') + ' || exit 1\n')
            if res:
                c = list(res.cmd)
                f.write(' '.join(f'{k}={shlex.quote(v)}' for k, v in res.env.items() if k != 'TMPDIR') + ' timeout %d ' % (res.run.timeout * 2))
                q = ['"$D/prog"' if b and x == b.out else shlex.quote(x.replace(self.tmp, '$D')) for x in c]
                f.write(' '.join(q) + '\nrc=$?; echo "exit status $rc"; exit $rc\n')
                f.write('\n: <<\'OUTPUT\'\n' + res.out[-3000:] + '\n--- stderr\n' + res.err[-6000:] + '\nOUTPUT\n')
            elif b: f.write('\n: <<\'OUTPUT\'\n' + b.log[-6000:] + '\nOUTPUT\n')
        os.chmod(path, 0o755)
        return path
    def known(self):
        p = os.path.join(VERIF, 'known_findings.txt'); out = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'open: property=(\S+) run=(\S+) match=(\S+) (.*)', l)
                if m and m.group(1) == self.pid: out.append((m.group(2), m.group(3), m.group(4).strip()))
        return out
    def finish(self):
        known = self.known(); unlisted = []; listed = set()
        for v in self.violations:
            hit = [k for k in known if k[0] in ('*', v[1]) and re.search(k[1], v[2])]
            if hit: listed.add(hit[0])
            else: unlisted.append(v)
        for k in sorted(listed): print(f'KNOWN-FINDING: property={self.pid} {k[2]}')
        m = self.meta
        cov = dict(evaluations=self.stats.get(m.get('eval'), 0) if isinstance(m.get('eval'), str) else sum(self.stats.get(k, 0) for k in m.get('eval', ())),
                   distinct_nontrivial=self.stats.get(m.get('distinct'), 0) if isinstance(m.get('distinct'), str) else sum(self.stats.get(k, 0) for k in m.get('distinct', ())),
                   rule=m.get('rule', ''), samples=self.samples or ['(no sample: run failed early)'])
        used = set([m.get('eval')] if isinstance(m.get('eval'), str) else m.get('eval', ())) | set([m.get('distinct')] if isinstance(m.get('distinct'), str) else m.get('distinct', ()))
        cov['observed'] = {k: v for k, v in sorted(self.stats.items()) if k not in used or (not isinstance(m.get('eval'), str) or not isinstance(m.get('distinct'), str))}
        cov['slowest_builds'] = sorted((f'{getattr(b, "secs", 0):.1f}s {b.name}' for b in self.builds.values()), key=lambda x: -float(x.split('s')[0]))[:4]
        cov['configurations'] = sorted({b.name for b in self.builds.values()})
        cov['runs'] = sorted(f'{r.run.name} ({r.secs:.1f}s)' for r in self.results)
        cov.update(self.extra)
        if m.get('exhaustive') is not None: cov['exhaustive'] = m['exhaustive']
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=m.get('assumptions', []), wall_s=round(time.time() - self.t0, 2), violations=len(unlisted))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
        for i, v in enumerate(unlisted[:6]):
            print(f'{v[0]} in {v[1]}: {v[2][:600]}')
            print(f'VIOLATION property={self.pid} replay={self.replay(i, v)}')
        for e in self.errors[:5]: print('CHECK-ERROR', e[:900])
        sys.stdout.flush()
        if unlisted: return 1
        if self.errors: return 2
        print(f'{self.pid} held: evaluations={cov["evaluations"]} distinct={cov["distinct_nontrivial"]} wall={ev["wall_s"]}s')
        return 0

def first_error(log):
    for l in log.splitlines():
        if 'error' in l or 'undefined reference' in l: return l[:300]
    return log[-300:]
