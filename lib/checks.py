"""One function per property: which harnesses are built in which configurations, with which workloads."""
import os, re
from vlib import *

NPROC = NCPU
ASSUME = ['the compiler, libc and kernel of this sandbox', 'behaviours are observed on the executions of this run only']

# ------------------------------------------------------------------ the multi-context machine
def machine(c, tag, impl, api, episodes, cxx='g++', std='c++17', opt='-O1', flags=(), ops=150, env=None, args=(), seed=None,
            threads=0, rounds=3, link=('-lpthread',), must=False, wrap=(), timeout=120, bname=None, group=None, **bk):
    f = list(flags) + (['-DUSE_CALLCC'] if api == 'callcc' else []) + (['-DSEG'] if impl == 'seg' else [])
    bname = bname or f'machine-{tag}'
    b = c.builds.get(bname) or c.build(bname, ['machine.cpp'], impl=impl, cxx=cxx, std=std, opt=opt, flags=f, link=link,
                                       must_compile=must, **bk)
    a = ['--seed', seed if seed is not None else c.sub(tag), '--episodes', episodes, '--ops', ops] + list(args)
    if threads: a += ['--threads', threads, '--rounds', rounds]
    return c.run(f'machine-{tag}', b, a, env=env, wrap=wrap, timeout=timeout, group=group)

MACHINE_RULE = ('an evaluation is one seeded random multi-context program (tens to hundreds of create/resume/resume_with/finish/destroy/throw/'
                'move operations over up to 10 live contexts, nested in destructors and ontop functions) executed in lockstep with the reference model; '
                'non-trivial: at least 10 switches and 2 contexts; distinct: by the hash of its complete event trace within one build')
def machine_meta(c, **k):
    c.meta = dict(eval='episodes', distinct='distinct_nontrivial_traces', rule=MACHINE_RULE, assumptions=ASSUME, **k)
    c.post.append(lambda c: c.need('switches', 1000))

ASSERTS = []                     # assertions are on unless NDEBUG is given
ND = ['-DNDEBUG']
ASANU = ['-fsanitize=address,undefined', '-fno-omit-frame-pointer', '-DBOOST_USE_ASAN']
# fcontext has no fibre annotations: redzones on stack frames are switched off, heap and stack-memory checks stay
ASANA = ['-fsanitize=address', '-fno-omit-frame-pointer', '--param', 'asan-stack=0']
ASANA_CL = ['-fsanitize=address', '-fno-omit-frame-pointer', '-mllvm', '-asan-stack=0']
NOFAKE = {'ASAN_OPTIONS': 'exitcode=99:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1'}

def four(c, n, **k):
    """the four implementation/API combinations"""
    for impl in ('asm', 'uctx'):
        for api in ('fiber', 'callcc'):
            machine(c, f'{impl}-{api}', impl, api, n, **k)

def winfib(c, n, k=0):
    """the implementation for Windows fibers, through a shim of the Win32 API that reports its misuse"""
    P = [dict(), dict(std='c++11'), dict(opt='-O2', flags=ND, cxx='clang++'), dict(std='c++14', opt='-O2'), dict(std='c++20', cxx='clang++')]
    for i, api in enumerate(('fiber', 'callcc')): machine(c, f'winfib-{api}', 'winfib', api, n, **P[(k + 2 * i) % 5])
def winalloc(c, eps):
    b = c.build('winalloc', ['winalloc.cpp'], impl='winfib', lib=False, flags=[f'{REPO}/src/windows/stack_traits.cpp']); c.run('winalloc', b, ['--seed', c.sub('winalloc'), '--episodes', eps])

# large numbers and sizes (scale.cpp)
BIGP = {'fa': dict(), 'ca': dict(api='callcc', cxx='clang++', opt='-O2', flags=ND), 'fu': dict(impl='uctx', cxx='clang++', opt='-O2'), 'cu': dict(impl='uctx', api='callcc', std='c++11'), 'fm': dict(flags=['-DBOOST_CONTEXT_USE_MAP_STACK'])}
def big(c, modes, which=('fa', 'ca', 'fu', 'cu'), n=1):
    for w in which:
        k = dict(BIGP[w]); api = k.pop('api', 'fiber'); f = k.pop('flags', []) + (['-DUSE_CALLCC'] if api == 'callcc' else [])
        b = c.build('scale-' + w, ['scale.cpp'], flags=f, link=['-lpthread'], **dict(dict(impl='asm'), **k))
        for m in modes: c.run(f'scale-{w}-{m}', b, ['--seed', c.sub('scale' + w + m), '--mode', m, '--n', dict(resumes=300000, threads=66000).get(m, 70000) * c.scale(1, 8 if m != 'nest' else 3)], timeout=c.scale(120, 1500))
    c.post.append(lambda c: c.need({'live': 'scale_finished', 'nest': 'scale_unwound', 'resumes': 'scale_ontops', 'threads': 'scale_threads', 'copies': 'scale_pool_copies', 'sizes': 'scale_large_stacks'}[modes[0]], 40 if modes[0] == 'sizes' else 60000))

def C01(c):
    big(c, ['live', 'resumes'])
    machine_meta(c)
    n = c.scale(2500, 60000); winfib(c, n // 2)
    for impl in ('asm', 'uctx'):
        for api in ('fiber', 'callcc'):
            machine(c, f'{impl}-{api}-O1', impl, api, n)
            machine(c, f'{impl}-{api}-O2n', impl, api, n, opt='-O2', flags=ND, cxx='clang++' if api == 'fiber' else 'g++')
    machine(c, 'asm-fiber-cxx11', 'asm', 'fiber', n // 2, std='c++11')
    machine(c, 'uctx-fiber-cxx11', 'uctx', 'fiber', n // 2, std='c++11', opt='-O2')
    machine(c, 'asm-callcc-cxx14', 'asm', 'callcc', n // 2, std='c++14')
    machine(c, 'uctx-callcc-cxx11', 'uctx', 'callcc', n // 2, std='c++11')
    machine(c, 'asm-fiber-O0', 'asm', 'fiber', n // 2, opt='-O0', std='c++20')
    for impl in ('macho', 'mspe'): machine(c, impl + '-fiber', impl, 'fiber', n // 2, cxx='clang++'); machine(c, impl + '-callcc', impl, 'callcc', n // 2, opt='-O2', std='c++11')
    machine(c, 'asm-fiber-long', 'asm', 'fiber', c.scale(20, 400), ops=6000, bname='machine-asm-fiber-O1')
    machine(c, 'uctx-callcc-long', 'uctx', 'callcc', c.scale(20, 400), ops=6000, bname='machine-uctx-callcc-O1')

# ------------------------------------------------------------------ register level harnesses
TSX = ['-DBOOST_USE_TSX', '-DNO_FPENV']
GUARD = ['-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-fstack-protector-all', '-DGUARD']
def raw(c, tag, eps, cxx='g++', opt='-O1', std='c++17', flags=(), args=(), impl='asm'):
    b = c.build(f'raw-{tag}', ['raw.cpp', 'shim_x86_64.S'], impl=impl, cxx=cxx, opt=opt, std=std, flags=flags)
    return c.run(f'raw-{tag}', b, ['--seed', c.sub('raw' + tag), '--episodes', eps] + list(args))
def regs(c, tag, eps, impl='asm', api='fiber', cxx='g++', opt='-O1', std='c++17', flags=()):
    f = list(flags) + (['-DUSE_CALLCC'] if api == 'callcc' else [])
    b = c.build(f'regs-{tag}', ['regs.cpp', 'shim_x86_64.S'], impl=impl, cxx=cxx, opt=opt, std=std, flags=f)
    return c.run(f'regs-{tag}', b, ['--seed', c.sub('regs' + tag), '--episodes', eps])
def i386(c, tag, eps, flags=(), opt='-O1'):
    b = c.build(f'i386-{tag}', ['raw32.c', 'shim_i386.S'], impl='i386', cxx='gcc', opt=opt, flags=flags)
    return c.run(f'i386-{tag}', b, [c.sub('i386' + tag) % 1000000, eps], timeout=c.scale(120, 3000))

# the ports for other processors, their instructions emulated (emu/)
PORTS = ('aarch64', 'aarch64_macho', 'aarch64_pe', 'aarch64_armasm', 'armv7', 'armv7_macho', 'armv7_armasm', 'armv5', 'riscv64', 'loongarch64', 'mips64el', 'mips64', 'mipsel', 'mips', 'ppc64le', 'ppc32', 'ppc64', 'ppc64_xcoff', 'ppc64_macho', 'ppc32_xcoff', 'ppc32_macho', 's390x', 'sparc64', 'i386_macho', 'i386_pe', 'i386_pe_clang', 'i386_masm', 'x64_pe', 'x64_pe_clang', 'x64_masm')
RULES = {'C02': 'callee-saved,stack-pointer,frame,fp-control,alignment,thread-block', 'C03': 'control,region,handle,data,exit,wild-read,wild-write,wild-jump,endless', 'C16': 'below-stack-pointer'}
def ports(c, eps):
    def judge(rc, out, err):
        if rc == 77: return re.search(r'ORACLE-FAIL (.*)', out).group(1)
        if rc: c.extra.setdefault('not_built', []).append((out + err)[-300:])      # another instruction than the emulator knows: nothing to be said
    for a in PORTS: c.run('port-' + a, sys.executable, [os.path.join(VERIF, 'emu/emu.py'), REPO, c.tmp, a, c.sub('port' + a), eps, RULES[c.pid]], timeout=c.scale(200, 3600), expect=judge)
def C02(c):
    n = c.scale(250, 8000)
    raw(c, 'O1', n); raw(c, 'O2n', n, opt='-O2', flags=ND); raw(c, 'clang-O2', n, cxx='clang++', opt='-O2'); raw(c, 'O0', n // 2, opt='-O0', std='c++11')
    raw(c, 'tsx', n, flags=TSX)
    for impl in ('asm', 'uctx'):
        for api in ('fiber', 'callcc'):
            regs(c, f'{impl}-{api}', 2 * n, impl, api, opt='-O2' if api == 'fiber' else '-O1', cxx='clang++' if impl == 'uctx' and api == 'callcc' else 'g++')
    regs(c, 'tsx', 2 * n, flags=TSX); regs(c, 'tsx-callcc', n, api='callcc', flags=TSX)
    i386(c, 'default', n); i386(c, 'tsx', n, flags=TSX)
    machine(c, 'asm-fiber', 'asm', 'fiber', c.scale(600, 20000)); machine(c, 'uctx-callcc', 'uctx', 'callcc', c.scale(600, 20000))
    for impl in ('macho', 'mspe'): raw(c, impl, n, impl=impl); regs(c, impl, n, impl=impl, opt='-O2')
    raw(c, 'macho-tsx', n // 2, impl='macho', flags=TSX); ports(c, n)
    c.meta = dict(eval=('raw_switches', 'switch_calls_observed', 'i386_jumps', 'i386_ontops', 'emulated_jumps', 'emulated_ontops'), distinct=('distinct_from_to_kind_alignment', 'distinct_from_to_state', 'distinct_emulated_kinds'),
                  rule='an evaluation is one library call (switch, function on top, create, destroy) made with random callee-saved registers, control words and caller-frame canaries, '
                       'all compared when it returns; distinct: different (from, to, kind of call, state of target, alignment of stack top)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('register_values_compared', 100000)); c.post.append(lambda c: c.need('i386_register_values_compared', 100000))

def C03(c):
    n = c.scale(400, 12000)
    raw(c, 'O1', n); raw(c, 'O2n', n, opt='-O2', flags=ND); raw(c, 'clang-O1', n, cxx='clang++'); raw(c, 'O0', n // 2, opt='-O0', std='c++11')
    raw(c, 'tsx', n, flags=TSX); raw(c, 'guard', n, flags=GUARD)
    raw(c, 'asan', n // 2, flags=ASANA); c.runs[-1].env = NOFAKE
    i386(c, 'default', n); i386(c, 'guard', n, flags=GUARD[:1] + GUARD[2:])
    for impl in ('macho', 'mspe'): raw(c, impl, n, impl=impl, cxx='clang++', opt='-O2')
    ports(c, n)
    c.meta = dict(eval=('raw_switches', 'contexts_made', 'i386_jumps', 'i386_ontops', 'tiny_regions', 'emulated_jumps', 'emulated_ontops'), distinct=('distinct_from_to_kind_alignment', 'distinct_emulated_kinds'),
                  rule='an evaluation is one raw make/jump/ontop call: delivered handle and data compared with the sent ones, who runs on which region checked, all bytes around and '
                       'unused inside the region checked; distinct: different (from, to, kind, fresh or not, alignment of the top)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('raw_switches', 100000)); c.post.append(lambda c: c.need('exit_tests', 7))

VG = ['valgrind', '-q', '--error-exitcode=67', '--exit-on-first-error=yes']
ASANF = ['-fsanitize=address', '-fno-omit-frame-pointer', '-DBOOST_USE_ASAN']
TSANF = ['-fsanitize=thread', '-DBOOST_USE_TSAN']
def C21(c):
    hands = ['-DHANDS_OFF']; fake = ['-DTOOLMON', '-I' + HARNESS + '/fakevg']
    n = c.scale(300, 9000)
    # the protocol between library and tool, call by call
    for tag, impl, api, f in (('asan', 'uctx', 'fiber', ['-DBOOST_USE_ASAN']), ('asan', 'uctx', 'callcc', ['-DBOOST_USE_ASAN']), ('tsan', 'uctx', 'fiber', ['-DBOOST_USE_TSAN']),
                              ('all', 'uctx', 'fiber', ['-DBOOST_USE_ASAN', '-DBOOST_USE_TSAN', '-DBOOST_USE_VALGRIND']),
                              ('vg', 'asm', 'callcc', ['-DBOOST_USE_VALGRIND']), ('vg', 'asm', 'fiber', ['-DBOOST_USE_VALGRIND']), ('vg', 'uctx', 'callcc', ['-DBOOST_USE_VALGRIND'])):
        machine(c, f'protocol-{tag}-{impl}-{api}', impl, api, n, flags=f + fake)
    # valid programs under the real tools
    h = c.scale(350, 12000); cl = dict(cxx='clang++')
    machine(c, 'asan-fiber', 'uctx', 'fiber', h, flags=ASANF + hands)
    machine(c, 'asan-callcc', 'uctx', 'callcc', h, flags=ASANF + hands, **cl)
    machine(c, 'asan-fiber-clang-O2', 'uctx', 'fiber', h, opt='-O2', flags=ASANF + hands + ND, **cl)
    machine(c, 'asan-callcc-nofake', 'uctx', 'callcc', h, flags=ASANF + hands, env=NOFAKE)
    machine(c, 'tsan-fiber', 'uctx', 'fiber', h, flags=TSANF + hands)
    machine(c, 'tsan-fiber-clang', 'uctx', 'fiber', h, flags=TSANF + hands, **cl)
    machine(c, 'tsan-fiber-threads', 'uctx', 'fiber', c.scale(30, 1000), flags=TSANF + hands, threads=4, bname='machine-tsan-fiber')
    for impl, api in (('asm', 'fiber'), ('uctx', 'callcc'), ('uctx', 'fiber'), ('asm', 'callcc')):
        machine(c, f'memcheck-{impl}-{api}', impl, api, c.scale(150, 4000), flags=['-DBOOST_USE_VALGRIND', '-DVERIF_VG'] + hands, wrap=VG, timeout=c.scale(120, 1500))
    # contexts that come and go, and genuine errors
    q = 'quarantine_size_mb=1:thread_local_quarantine_size_kb=64'
    for tag, impl, api, f, env, d in (('asan', 'uctx', 'fiber', ASANF + ['-DVERIF_ASAN'], {'ASAN_OPTIONS': f'exitcode=99:detect_stack_use_after_return=1:{q}'}, {}),
                                   ('asan-clang', 'uctx', 'callcc', ASANF + ['-DVERIF_ASAN'], {'ASAN_OPTIONS': f'exitcode=99:detect_stack_use_after_return=1:{q}'}, cl),
                                   ('tsan', 'uctx', 'fiber', TSANF + ['-DVERIF_TSAN'], {}, {}), ('tsan-clang', 'uctx', 'fiber', TSANF + ['-DVERIF_TSAN'], {}, cl),
                                   ('vg', 'uctx', 'fiber', ['-DBOOST_USE_VALGRIND', '-DVERIF_VG'], {}, {}), ('vg-asm', 'asm', 'fiber', ['-DBOOST_USE_VALGRIND', '-DVERIF_VG'], {}, {}),
                                   ('vg-callcc', 'asm', 'callcc', ['-DBOOST_USE_VALGRIND', '-DVERIF_VG'], {}, cl)):
        fl = list(f) + (['-DUSE_CALLCC'] if api == 'callcc' else [])
        b = c.build('toolctl-' + tag, ['toolctl.cpp'], impl=impl, flags=fl, link=['-lpthread'], **d)
        vg = tag.startswith('vg')
        c.run('grow-' + tag, b, ['--mode', 'grow', '--seed', c.sub('g' + tag), '--episodes', c.scale(3000, 60000) if vg else c.scale(20000, 300000)], env=env, wrap=VG if vg else [], timeout=c.scale(120, 1500))
        c.run('controls-' + tag, b, ['--mode', 'sweep', '--seed', c.sub('c' + tag), '--step', c.scale(24 if vg else 12, 4 if vg else 1), '--vg', int(vg)], env=env, timeout=c.scale(200, 3000))
    c.meta = dict(eval=('asan_switches_checked', 'tsan_switches_checked', 'valgrind_requests_checked', 'grow_cycles', 'controls_valid_quiet', 'controls_errors_made', 'episodes'),
                  distinct=('distinct_nontrivial_traces', 'controls_errors_reported', 'controls_valid_quiet'),
                  rule='an evaluation is one notification of the library to a tool compared with what really happens (the stack really left and entered, its bounds, the fibre token, the region registered), '
                       'one random program under a real tool, one context that came and went under a tool with bounded memory, or one control program with or without a genuine error; distinct: traces by build, controls by kind and surrounding',
                  assumptions=ASSUME)
    for k, m in (('asan_switches_checked', 10000), ('tsan_switches_checked', 10000), ('valgrind_requests_checked', 3000), ('grow_cycles', 20000), ('controls_errors_reported', 100), ('controls_valid_quiet', 30)):
        c.post.append(lambda c, k=k, m=m: c.need(k, m))

def C22(c):
    n = c.scale(1500, 30000)
    link = ['-fuse-ld=gold', '-lpthread'] + [f'-Wl,--wrap={w}' for w in ('syscall', '__splitstack_makecontext', '__splitstack_releasecontext')]
    for t, d in (('fiber', {}), ('callcc', dict(flags=['-DUSE_CALLCC'])), ('fiber-O2', dict(opt='-O2', std='c++11', flags=ND)), ('callcc-O2', dict(opt='-O2', std='c++20', flags=['-DUSE_CALLCC'])),
                 ('fiber-O0', dict(opt='-O0', std='c++14')), ('callcc-O0', dict(opt='-O0', std='c++11', flags=['-DUSE_CALLCC'] + ND))):
        d = dict(d); d['flags'] = list(d.get('flags', ())) + ['-fcf-protection=none']       # (the linker does not recognise the prologue otherwise)
        b = c.build('seg-' + t, ['seg.cpp'], impl='seg', link=link, **d)
        for i in range(2): c.run(f'seg-{t}-{i}', b, ['--seed', c.sub(f'seg{t}{i}') % 1000000007, '--episodes', n, '--crowd', c.scale(300, 1500)])
    for api in ('fiber', 'callcc'): machine(c, 'seg-' + api, 'seg', api, c.scale(1000, 30000))
    c.meta = dict(eval=('seg_frames_checked', 'seg_switches', 'seg_segments_mapped', 'episodes'), distinct=('seg_distinct_histories', 'distinct_nontrivial_traces'),
                  rule='an evaluation is one stack frame whose place and every (for large frames: every 61st) byte was checked when its function returned, one switch, or one segment followed from its mapping to its return; '
                       'distinct: different histories of operations and traces by build', assumptions=ASSUME)
    for k, m in (('seg_switches_while_grown', 10000), ('seg_released_while_grown', 1000), ('seg_unwound', 1000), ('seg_continued_on_thread', 1000), ('seg_nested', 500)):
        c.post.append(lambda c, k=k, m=m: c.need(k, m))

def C23(c):
    n = c.scale(300, 8000)
    raw(c, 'guard-O1', n, flags=GUARD); raw(c, 'guard-clang-O2', n, cxx='clang++', opt='-O2', flags=GUARD); raw(c, 'guard-tsx', n, flags=GUARD + TSX)
    for api in ('fiber', 'callcc'):
        regs(c, f'guard-{api}', 2 * n, api=api, flags=GUARD); regs(c, f'guard-{api}-O2', 2 * n, api=api, opt='-O2', flags=GUARD + ND, cxx='clang++')
        machine(c, f'guard-{api}', 'asm', api, c.scale(500, 20000), flags=GUARD)
    machine(c, 'guard-threads', 'asm', 'fiber', c.scale(120, 4000), flags=GUARD, threads=4, bname='machine-guard-fiber')
    i386(c, 'guard', n, flags=GUARD[:1] + GUARD[2:])
    c.meta = dict(eval=('raw_switches', 'switch_calls_observed', 'i386_guard_values_compared'), distinct=('distinct_from_to_kind_alignment', 'distinct_from_to_state'),
                  rule='an evaluation is one switch between contexts that use different guard values; guard before and after, guard of new contexts, caller-frame canaries and the process '
                       'surviving stack-protector-all code are compared; distinct: different (from, to, kind, state)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('raw_switches', 100000)); c.post.append(lambda c: c.need('i386_guard_values_compared', 50000))

# ------------------------------------------------------------------ shadow stacks
CETF = ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1', '-DCETEMU', '-static', '-no-pie']
CETL = ['-Wl,--wrap=syscall,--wrap=munmap,--wrap=fork,--wrap=abort', '-lpthread']
def C24(c):
    n = c.scale(1, 30); V = [('O1', dict()), ('O2', dict(opt='-O2', cxx='clang++', std='c++11')), ('O2n', dict(opt='-O2', std='c++20', f=ND)), ('O0', dict(opt='-O0', cxx='clang++', std='c++14'))]
    def b(name, srcs, api, opt='-O1', f=(), **k): return c.build(f'cet-{name}', srcs + ['cetemu.cpp'], flags=CETF + list(f) + (['-DUSE_CALLCC'] if api == 'callcc' else []), link=CETL, opt=opt, **k)
    def r(x, eps, *a): c.run(x.name + ''.join(a[1:]), x, ['--seed', c.sub(x.name), '--episodes', eps] + list(a), timeout=c.scale(120, 1500))
    for i, api in enumerate(('fiber', 'callcc')):
        for j, (t, d) in enumerate(V):
            r(b(f'machine-{api}-{t}', ['machine.cpp'], api, **d), 30 * n); r(b(f'shadow-{api}-{t}', ['cet.cpp'], api, **d), 16 * n)
            if i == j: r(b(f'callables-{api}', ['callables.cpp'], api, **d), 8 * n)
            if i == j or j == 3: r(b(f'exc-{api}-{t}', ['exc.cpp'], api, **d), 3 * n)
        l = b(f'life-{api}', ['life.cpp'], api, **V[i + 1][1])
        for m in ('chain', 'unwind', 'ontop'): r(l, (20 if m == 'chain' else 10) * n, '--mode', m)
    for t, d in V + [('guard', dict(f=GUARD)), ('tsx', dict(f=TSX, cxx='clang++'))]: r(b(f'raw-{t}', ['raw.cpp', 'shim_x86_64.S'], 'fiber', **d), 12 * n)
    c.meta = dict(eval=('cet_stack_switches', 'cet_stacks_mapped', 'cet_deep_recursions', 'cet_failed_creations'), distinct=('distinct_nontrivial_traces', 'distinct_cet_cases', 'distinct_from_to_kind_alignment', 'distinct_escapes'),
                  rule='an evaluation is one switch between shadow stacks, one shadow stack followed from its mapping to its end, one recursion as deep as the stack allows, or one creation without a shadow stack to be had, '
                       'in programs of which every single call, return, rdssp, incssp, rstorssp and saveprevssp is executed by a software shadow stack; distinct: traces by build, histories and (from, to, kind) of the harnesses', assumptions=ASSUME + ['the software shadow stack behaves as the CPU does'])
    for k, m in (('cet_stack_switches', 50000), ('cet_returns', 1000000), ('cet_pops', 10000), ('cet_deep_frames', 100000), ('cet_failed_creations', 50), ('exit_tests', 20)): c.post.append(lambda c, k=k, m=m: c.need(k, m))

# ------------------------------------------------------------------ allocators and stack usage
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'free', 'calloc', 'posix_memalign', 'aligned_alloc', 'memalign', 'valloc', 'mmap', 'munmap', 'mprotect')), '-Wl,-z,now', '-lpthread']
MAPST = ['-DBOOST_CONTEXT_USE_MAP_STACK']
def alloc_builds(c, which):
    """which: names out of the table below -> builds"""
    T = dict(fa=dict(), ca=dict(opt='-O2', flags=ND + ['-DUSE_CALLCC']), fu=dict(impl='uctx', cxx='clang++', flags=ND), cu=dict(impl='uctx', flags=['-DUSE_CALLCC']),
             fm=dict(flags=MAPST, std='c++11'), cm=dict(flags=MAPST + ['-DUSE_CALLCC'], impl='uctx', opt='-O2'), fv=dict(flags=['-DBOOST_USE_VALGRIND']),
             fac=dict(cxx='clang++', opt='-O2'), mn=dict(flags=MAPST + ND, opt='-O2'))
    return [c.build('alloc-' + w, ['alloc.cpp'], link=WRAP, **T[w]) for w in which]
def alloc(c, bs, mode, eps, **k):
    for b in bs: c.run(f'{b.name}-{mode}', b, ['--seed', c.sub(b.name + mode), '--mode', mode, '--episodes', eps], **k)

def C09(c):
    big(c, ['sizes'], ('fa', 'cu', 'fm'))
    winalloc(c, c.scale(60, 3000))
    bs = alloc_builds(c, ['fa', 'ca', 'fu', 'cu', 'fm', 'cm', 'fv', 'mn'])
    alloc(c, bs, 'seq', c.scale(150, 6000)); alloc(c, bs, 'fault', c.scale(400, 20000)); alloc(c, bs, 'exhaust', 1)
    alloc(c, bs, 'pool', c.scale(60, 2000)); alloc(c, bs[:2] + bs[4:5], 'overflow', c.scale(60, 600))
    b = c.build('alloc-asan', ['alloc.cpp'], link=['-lpthread', WRAP[0]], flags=['-fsanitize=address', '--param', 'asan-stack=0'])
    for m in ('seq', 'pool'): c.run('alloc-asan-' + m, b, ['--seed', c.sub('as' + m), '--mode', m, '--episodes', c.scale(60, 1500)], env=NOFAKE)
    c.meta = dict(eval=('allocations', 'deallocations', 'bad_allocs', 'failed_creations'), distinct=('distinct_cases',),
                  rule='an evaluation is one allocate()/deallocate()/context creation with every malloc/free/mmap/munmap/mprotect/operator new made by the library recorded: size, overlap, usability '
                       'of every byte, exact give-back, and bad_alloc without leak or side effect under injected and real exhaustion; distinct: different (kind, size) or (failed call, kind, outcome)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('allocations', 10000)); c.post.append(lambda c: c.need('injected_failures', 1000))

def C10(c):
    big(c, ['sizes'], ('ca', 'fu'))
    winalloc(c, c.scale(150, 6000))
    bs = alloc_builds(c, ['fa', 'ca', 'fu', 'cu', 'fm', 'fac', 'mn'])
    alloc(c, bs, 'overflow', c.scale(250, 6000)); alloc(c, bs, 'seq', c.scale(120, 5000)); alloc(c, bs, 'exhaust', 1); alloc(c, bs, 'fault', c.scale(300, 10000))
    c.meta = dict(eval=('overflows_trapped', 'guard_probes'), distinct=('distinct_cases',),
                  rule='an evaluation is one context run off the lower end of a protected stack (recursion, byte-wise write, byte-wise read) that must fault inside the guard page, or one read/write probe of a guard '
                       'page byte (first, last, random) while the stack is live, including when memory or mappings run out or mprotect fails; distinct: different (size, method) and (kind, size)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('overflows_trapped', 1000)); c.post.append(lambda c: c.need('guard_probes', 10000))

def C11(c):
    big(c, ['copies'])
    bs = alloc_builds(c, ['fa', 'ca', 'fu', 'cu', 'fm', 'cm', 'fv'])
    alloc(c, bs, 'pool', c.scale(250, 8000)); alloc(c, bs, 'poolthreads', c.scale(250, 5000)); alloc(c, bs, 'fault', c.scale(200, 6000))
    b = c.build('alloc-asan', ['alloc.cpp'], link=['-lpthread', WRAP[0]], flags=['-fsanitize=address', '--param', 'asan-stack=0'])
    c.run('alloc-asan-pool', b, ['--seed', c.sub('aspool'), '--mode', 'pool', '--episodes', c.scale(100, 2000)], env=NOFAKE)
    c.run('alloc-asan-poolrace', b, ['--seed', c.sub('asrace'), '--mode', 'poolrace', '--episodes', c.scale(40, 1500)], env=NOFAKE)
    t = c.build('alloc-tsan', ['alloc.cpp'], impl='uctx', link=['-lpthread', WRAP[0]], flags=['-fsanitize=thread'])
    c.run('alloc-tsan-poolrace', t, ['--seed', c.sub('tsrace'), '--mode', 'poolrace', '--episodes', c.scale(6, 200)])
    c.run('alloc-tsan-poolthreads', t, ['--seed', c.sub('tspool'), '--mode', 'poolthreads', '--episodes', c.scale(15, 300)])
    c.meta = dict(eval=('pool_blocks', 'pool_reuses'), distinct=('distinct_cases',),
                  rule='an evaluation is one allocation from a pool through a random copy (raw stack or context holding its own copy) judged against the number of live stacks, the configured chunk sizes and the memory '
                       'the pool holds; or one copy/drop of a copy by one of six threads; distinct: different (stack size, first chunk, maximum, peak)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('pools_outliving_their_allocator', 500)); c.post.append(lambda c: c.need('pool_last_copy_races', 20000))

def C12(c):
    big(c, ['sizes'])
    bs = alloc_builds(c, ['fa', 'ca', 'fu', 'cu', 'fm', 'fac'])
    alloc(c, bs, 'prealloc', c.scale(60, 2500))
    four(c, c.scale(500, 20000))
    c.meta = dict(eval=('contexts',), distinct=('distinct_cases',),
                  rule='an evaluation is one context on preallocated space (callable sizes 1..70000, alignments 8..256, random alignment of the pointer, 0..600 reserved bytes), finished or unwound, with all bytes above the '
                       'pointer, around the stack and in the unused part compared, and its whole remaining stack used; distinct: different (callable, alignment, reserved bytes, ending)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('deep_switches', 1000))

def C17(c):
    big(c, ['sizes'])
    bs = alloc_builds(c, ['fa', 'ca', 'fu', 'cu', 'fac'])
    alloc(c, bs, 'use', c.scale(60, 2500)); alloc(c, bs, 'prealloc', c.scale(15, 600)); alloc(c, bs[:4], 'overflow', c.scale(60, 500))
    four(c, c.scale(500, 20000))
    c.meta = dict(eval=('contexts',), distinct=('distinct_cases',),
                  rule='an evaluation is one context with a callable of one of 20 size/alignment combinations on a stack with a random top, whose surroundings are compared after every switch, whose whole stack is filled and '
                       'checked across switches and which switches, finishes or is unwound from within the last bytes of the stack; distinct: different (callable size, alignment, stack top, ending)', assumptions=ASSUME)
    c.post.append(lambda c: c.need('deep_switches', 1000)); c.post.append(lambda c: c.need('switches', 1000))

# ------------------------------------------------------------------ machine based lifetime / ownership / ontop / exception checks
def san(c, n, which=('fa', 'ca', 'fu', 'cu')):
    """sanitizer builds: stack, heap and lifetime errors of library and program become reports"""
    if 'fa' in which: machine(c, 'asan-asm-fiber', 'asm', 'fiber', n, flags=ASANA, env=NOFAKE)
    if 'ca' in which: machine(c, 'asan-asm-callcc', 'asm', 'callcc', n, cxx='clang++', flags=ASANA_CL, env=NOFAKE)
    if 'fu' in which: machine(c, 'asan-uctx-fiber', 'uctx', 'fiber', n, cxx='clang++', flags=ASANU)
    if 'cu' in which: machine(c, 'asan-uctx-callcc', 'uctx', 'callcc', n, flags=ASANU)
def wide(c, n, k=1):
    """the four combinations in differing compilers, standards and optimisation levels"""
    P = [dict(), dict(opt='-O2', flags=ND, cxx='clang++'), dict(std='c++11'), dict(opt='-O2', std='c++14'), dict(opt='-O0', std='c++20', cxx='clang++')]
    i = k
    for impl in ('asm', 'uctx'):
        for api in ('fiber', 'callcc'):
            for j in range(2):
                machine(c, f'{impl}-{api}-{j}', impl, api, n, **P[i % 5]); i += 1
            i += 1

def life(c, tag, eps, impl='asm', api='fiber', cxx='g++', opt='-O1', std='c++17', flags=(), env=None, mode='all'):
    f = list(flags) + (['-DUSE_CALLCC'] if api == 'callcc' else [])
    w = impl == 'uctx'; f += ['-DWRAP_GETCONTEXT'] if w else []
    b = c.builds.get(f'life-{tag}') or c.build(f'life-{tag}', ['life.cpp'], impl=impl, link=['-lpthread'] + (['-Wl,--wrap=getcontext'] if w else []), cxx=cxx, opt=opt, std=std, flags=f)
    return c.run(f'life-{tag}-{mode}', b, ['--seed', c.sub(f'life{tag}{mode}'), '--episodes', eps, '--mode', mode], env=env)

def exc(c, tag, eps, impl='asm', api='fiber', cxx='g++', opt='-O1', std='c++17', flags=()):
    f = list(flags) + (['-DUSE_CALLCC'] if api == 'callcc' else [])
    b = c.build(f'exc-{tag}', ['exc.cpp'], impl=impl, cxx=cxx, opt=opt, std=std, flags=f)
    return c.run(f'exc-{tag}', b, ['--seed', c.sub(f'exc{tag}'), '--episodes', eps])

def C08(c):
    big(c, ['resumes'], ('fa', 'cu'))
    n = c.scale(40, 1500)
    exc(c, 'fa', n); exc(c, 'ca-O2', n, api='callcc', opt='-O2', flags=ND); exc(c, 'fu-cl', n, impl='uctx', cxx='clang++', opt='-O2'); exc(c, 'cu', n, impl='uctx', api='callcc')
    exc(c, 'fa-cl-O0', n, cxx='clang++', opt='-O0', std='c++20'); exc(c, 'ca-11', n, api='callcc', std='c++11'); exc(c, 'fu-O0', n, impl='uctx', opt='-O0', std='c++14'); exc(c, 'tsx', n, flags=TSX)
    exc(c, 'wf', n, impl='winfib', opt='-O2'); exc(c, 'wc', n, impl='winfib', api='callcc', std='c++14', cxx='clang++'); winfib(c, c.scale(300, 10000), 2)
    wide(c, c.scale(500, 20000), 2)
    c.meta = dict(eval=('escapes_observed_to_terminate', 'stack_walks', 'exceptions_caught', 'exceptions'), distinct=('distinct_escapes', 'distinct_nontrivial_traces'),
                  rule='an evaluation is one exception that leaves a context-function in a forked child (12 types, 10 situations) and must reach std::terminate on the stack of that context, one walk of a context\'s '
                       'stack by the unwinder and by backtrace() with inaccessible memory at both ends, or one exception thrown and caught inside a random multi-context program with the exception state compared '
                       'at every switch; distinct: different (situation, type, depth) and different program traces', assumptions=ASSUME)
    c.post.append(lambda c: c.need('escapes_observed_to_terminate', 1000)); c.post.append(lambda c: c.need('stack_walks', 2000)); c.post.append(lambda c: c.need('switches', 1000))

LIFE = [('fa', dict()), ('ca', dict(api='callcc', opt='-O2', flags=ND)), ('fu', dict(impl='uctx', cxx='clang++', opt='-O2')), ('cu', dict(impl='uctx', api='callcc')),
        ('fa11', dict(std='c++11', opt='-O2')), ('ca11', dict(std='c++11', api='callcc', cxx='clang++')), ('fu11', dict(std='c++11', impl='uctx')), ('cu11', dict(std='c++11', impl='uctx', api='callcc', opt='-O2')),
        ('fa-asan', dict(flags=ASANA, env=NOFAKE)), ('cu-asan', dict(impl='uctx', api='callcc', flags=ASANU)), ('fu-asan', dict(impl='uctx', cxx='clang++', flags=ASANU)), ('ca-asan', dict(api='callcc', cxx='clang++', flags=ASANA_CL, env=NOFAKE)),
        ('wf', dict(impl='winfib')), ('wc', dict(impl='winfib', api='callcc', std='c++11', opt='-O2'))]
def lives(c, n, mode, names=None):
    for k, d in LIFE:
        if names is None or k in names: life(c, k, n // 4 if 'asan' in k else n, mode=mode, **d)

def C04(c):
    big(c, ['live', 'nest'])
    n = c.scale(900, 30000)
    wide(c, n, 0); san(c, n // 6); winfib(c, n, 1); machine(c, 'winfib-asan', 'winfib', 'fiber', n // 6, flags=ASANA, env=NOFAKE)
    lives(c, c.scale(120, 4000), 'chain'); lives(c, c.scale(60, 2000), 'unwind', ('fa', 'cu', 'fu11', 'ca-asan', 'wf'))
    machine(c, 'asm-fiber-mapstack', 'asm', 'fiber', n, flags=MAPST); machine(c, 'asm-callcc-guard', 'asm', 'callcc', n, flags=GUARD)
    machine_meta(c); c.meta['eval'] = ('stacks_released', 'chains_nests_containers'); c.meta['distinct'] = ('distinct_nontrivial_traces', 'distinct_life')
    c.meta['rule'] = 'an evaluation is one stack handed out by an instrumented allocator and released again, judged for size, pointer, allocator, order against locals and callable, and for later writes (poisoned, quarantined); ' + MACHINE_RULE
    c.post.append(lambda c: c.need('stacks_released', 50000))

def C05(c):
    big(c, ['nest'])
    n = c.scale(700, 25000)
    wide(c, n, 1); san(c, n // 6); winfib(c, n, 2)
    lives(c, c.scale(160, 6000), 'unwind'); lives(c, c.scale(60, 2000), 'chain'); lives(c, 1, 'statics')
    machine_meta(c); c.meta['eval'] = ('destroys_of_live_handles', 'unwound_programs', 'static_programs'); c.meta['distinct'] = ('distinct_nontrivial_traces', 'distinct_life')
    c.meta['rule'] = ('an evaluation is one context unwound by the destruction of its handle: in random multi-context programs against the model (which locals, in which order, on which stack, exception state), or random single-context '
                      'code suspended anywhere (constructors, argument lists, containers, new expressions, try blocks) whose event log must equal that of a plain exception at this point, or at process/thread exit; distinct: different logs/traces')
    c.post.append(lambda c: c.need('destroys_of_live_handles', 5000)); c.post.append(lambda c: c.need('unwound_programs', 5000)); c.post.append(lambda c: c.need('static_programs', 11 * 12))

def C06(c):
    n = c.scale(700, 25000)
    wide(c, n, 2); san(c, n // 8); winfib(c, n, 3)
    lives(c, c.scale(250, 8000), 'chain'); lives(c, c.scale(20, 500), 'ontop')
    machine_meta(c); c.meta['eval'] = ('oracle_checks', 'handle_checks'); c.meta['distinct'] = ('distinct_nontrivial_traces', 'distinct_life')
    c.meta['rule'] = 'an evaluation is one comparison of a handle (truth value, order, text, what it resumes) with the model after a move, swap, self-move, container operation, resumption or exception; distinct: ' + MACHINE_RULE
    c.post.append(lambda c: c.need('handle_checks', 50000))

def C07(c):
    big(c, ['resumes'], ('ca', 'fu'))
    n = c.scale(700, 25000)
    wide(c, n, 3); san(c, n // 8); winfib(c, n, 4)
    lives(c, c.scale(60, 2500), 'ontop')
    machine_meta(c); c.meta['eval'] = ('ontop_runs', 'ontop_cases'); c.meta['distinct'] = ('distinct_nontrivial_traces', 'distinct_life')
    c.meta['rule'] = ('an evaluation is one resume_with(): count of executions, stack it runs on, handles it gets and returns, exception, copies and destruction of the function object (10 kinds, lvalue and rvalue, 4 results; fresh and '
                      'suspended targets; function that itself switches); distinct: different (kind, result, value category) and different program traces')
    c.post.append(lambda c: c.need('ontop_runs', 5000)); c.post.append(lambda c: c.need('ontop_cases', 10000))

# ------------------------------------------------------------------ limits, threads, signals
TSANU = ['-fsanitize=thread', '-DBOOST_USE_TSAN']
THR = {'fa': dict(), 'ca': dict(api='callcc', opt='-O2', flags=ND), 'fu': dict(impl='uctx', cxx='clang++', opt='-O2'), 'cu': dict(impl='uctx', api='callcc'), 'fa11': dict(std='c++11', opt='-O2', cxx='clang++'), 'cu11': dict(std='c++11', impl='uctx', api='callcc', opt='-O2', flags=ND),
       'fu-tsan': dict(impl='uctx', flags=TSANU), 'fu-tsan-cl': dict(impl='uctx', flags=TSANU, cxx='clang++', opt='-O2'), 'fu-asan': dict(impl='uctx', flags=ASANU), 'cu-asan': dict(impl='uctx', api='callcc', flags=ASANU, cxx='clang++'), 'fa-asan': dict(flags=ASANA, env=NOFAKE),
       'wf': dict(impl='winfib'), 'wc': dict(impl='winfib', api='callcc', opt='-O2', std='c++11')}
def threads(c, tag, eps, mode, impl='asm', api='fiber', cxx='g++', opt='-O1', std='c++17', flags=(), env=None):
    f = list(flags) + (['-DUSE_CALLCC'] if api == 'callcc' else [])
    b = c.builds.get(f'threads-{tag}') or c.build(f'threads-{tag}', ['threads.cpp'], impl=impl, cxx=cxx, opt=opt, std=std, flags=f)
    return c.run(f'threads-{tag}-{mode}', b, ['--seed', c.sub(f'threads{tag}{mode}'), '--episodes', eps, '--mode', mode], env=env)

def C14(c):
    big(c, ['threads'], ('fa', 'cu'))
    for k, d in THR.items():
        s = 'tsan' in k or 'asan' in k
        threads(c, k, c.scale(25 if s else 40, 700 if s else 2000), 'alone', **d); threads(c, k, c.scale(60 if s else 400, 3000 if s else 40000), 'churn', **d)
    n = c.scale(60, 2000)
    for impl, api, o in (('asm', 'fiber', '-O1'), ('asm', 'callcc', '-O2'), ('uctx', 'fiber', '-O2'), ('uctx', 'callcc', '-O1')): machine(c, f'{impl}-{api}-threads', impl, api, n, opt=o, threads=6)
    machine(c, 'tsan-uctx-fiber', 'uctx', 'fiber', n // 10, flags=TSANU, threads=4); machine(c, 'asan-uctx-callcc', 'uctx', 'callcc', n // 6, flags=ASANU, threads=4)
    c.meta = dict(eval=('thread_switches', 'switches'), distinct=('threads_run', 'distinct_nontrivial_traces'),
                  rule='an evaluation is one switch made by a thread while others run; every thread\'s result is compared with the same program run alone, the random programs additionally with the model; under ThreadSanitizer every '
                       'access of library and program is checked for races; threads come and go and heap and mappings must not grow; distinct: threads run (each with its own program) and distinct program traces', assumptions=ASSUME)
    c.post.append(lambda c: c.need('threads_run', 5000)); c.post.append(lambda c: c.need('thread_switches', 100000))

def C15(c):
    big(c, ['threads'], ('ca', 'fu'))
    for k, d in THR.items():
        s = 'tsan' in k or 'asan' in k
        threads(c, k, c.scale(40 if s else 120, 1500 if s else 8000), 'migrate', **d)
    c.meta = dict(eval=('thread_switches', 'thread_destroys'), distinct=('migrations',),
                  rule='an evaluation is one switch or destruction in a random program in which up to 6 threads per wave (all gone before the next wave) and the contexts themselves pick any suspended or fresh context and resume, resume_with, '
                       'destroy or end into it; identity of thread, delivered handle, locals, FP control, exceptions, place of unwinding and stack release are checked at every arrival; distinct: continuations on another thread than before', assumptions=ASSUME)
    c.post.append(lambda c: c.need('migrations', 50000)); c.post.append(lambda c: c.need('foreign_ends', 10000))
def C13(c):
    n = c.scale(400, 8000)
    def t(tag, impl='asm', api='fiber', eps=n, **k):
        b = c.build(f'traits-{tag}', ['traits.cpp'], impl=impl, **dict(k, flags=list(k.get('flags', ())) + (['-DUSE_CALLCC'] if api == 'callcc' else [])))
        c.run(f'traits-{tag}', b, ['--seed', c.sub('traits' + tag), '--episodes', eps])
    t('fa'); t('ca', api='callcc', opt='-O2', flags=ND); t('fu', 'uctx', cxx='clang++', opt='-O2'); t('cu', 'uctx', 'callcc', std='c++11'); t('fa11', std='c++11', opt='-O0')
    t('tsan', 'uctx', eps=c.scale(200, 3000), flags=TSANU); t('tsan-cl', 'uctx', eps=c.scale(200, 3000), flags=TSANU, cxx='clang++', opt='-O2')
    c.meta = dict(eval=('questions',), distinct=('processes',),
                  rule='an evaluation is one question to stack_traits compared with getrlimit, sysconf and the auxiliary vector of the same process; every process is fresh, has its own random or boundary hard limit, and asks first '
                       'from main, from a context, or from up to 8 threads at once (also under ThreadSanitizer); distinct: fresh processes', assumptions=ASSUME)
    c.post.append(lambda c: c.need('bounded_processes', 300)); c.post.append(lambda c: c.need('unbounded_processes', 100)); c.post.append(lambda c: c.need('threads_asking_at_once', 1000))

def C16(c):
    def st(tag, impl='asm', api='fiber', n=None, **k):
        b = c.build(f'sigstep-{tag}', ['sigstep.cpp'], impl=impl, **dict(k, flags=list(k.get('flags', ())) + (['-DUSE_CALLCC'] if api == 'callcc' else [])))
        c.run(f'sigstep-{tag}', b, ['--seed', c.sub('sigstep' + tag), '--episodes', n or c.scale(64, 2500)])
    st('fa'); st('ca', api='callcc', opt='-O2', flags=ND); st('fu', 'uctx', cxx='clang++', opt='-O2'); st('cu', 'uctx', 'callcc'); st('fa-cl-O2', cxx='clang++', opt='-O2', std='c++11')
    st('ca-O0', api='callcc', opt='-O0', n=c.scale(32, 1200)); st('fa-tsx', flags=TSX, opt='-O2'); st('fa-guard', flags=GUARD); st('ca-guard', api='callcc', flags=GUARD + TSX, opt='-O2')
    for t, f in (('step', []), ('step-guard', GUARD[:1] + GUARD[2:]), ('step-tsx', TSX)): i386(c, t, c.scale(3, 100), flags=['-DSTEP'] + f)
    ports(c, c.scale(300, 8000))
    c.meta = dict(eval=('instructions_interrupted', 'i386_instructions_interrupted', 'emulated_clobbers'), distinct=('distinct_instructions_interrupted', 'i386_distinct_instructions_interrupted'),
                  rule='an evaluation is one instruction boundary of a random context program (fibers/continuations or raw fcontext) at which a signal handler was run on the interrupted stack, which overwrote the stack below the red zone and '
                       'the abandoned part of the stack left by the last switch, clobbered all registers, in part ran a context of its own; the log must equal that of the uninterrupted program; distinct: instruction addresses', assumptions=ASSUME)
    c.post.append(lambda c: c.need('instructions_interrupted', 2000000)); c.post.append(lambda c: c.need('distinct_instructions_interrupted', 5000))

# ------------------------------------------------------------------ callables and helpers
def C18(c):
    for std, api in (('c++11', 'fiber'), ('c++17', 'callcc')) if c.quick else [(s, a) for s in ('c++11', 'c++14', 'c++17', 'c++20') for a in ('fiber', 'callcc')]:
        b = c.build(f'callables-winfib-{api}-{std[3:]}', ['callables.cpp'], impl='winfib', std=std, opt='-O0', flags=['-DUSE_CALLCC'] if api == 'callcc' else []); c.run(b.name, b, ['--episodes', c.scale(3, 200)])
    for std in ('c++11', 'c++14', 'c++17', 'c++20'):
        for cxx in ('g++', 'clang++'):
            for impl in ('asm', 'uctx'):
                for api in ('fiber', 'callcc'):
                    if c.quick and std in ('c++14', 'c++20') and (cxx == 'g++') == ((impl == 'asm') == (api == 'fiber')): continue
                    t = f'{impl}-{api}-{std[3:]}-{cxx[:1]}'
                    b = c.build(f'callables-{t}', ['callables.cpp'], impl=impl, cxx=cxx, std=std, opt='-O2' if std in ('c++11', 'c++20') and not c.quick else '-O0', flags=['-DUSE_CALLCC'] if api == 'callcc' else [], must_compile=True)
                    c.run(f'callables-{t}', b, ['--episodes', c.scale(3, 200)])
            for o in ('-O1',) if c.quick else ('-O0', '-O1', '-O2', '-O3'):
                b = c.build(f'helpers-{std[3:]}-{cxx[:1]}{o}', ['helpers.cpp'], impl=None, cxx=cxx, std=std, opt=o, must_compile=True)
                c.run(b.name, b, ['--seed', c.sub(b.name), '--episodes', c.scale(300, 20000)])
    for impl, api, f, e in (('asm', 'fiber', ASANA, NOFAKE), ('uctx', 'callcc', ASANU, None), ('uctx', 'fiber', ASANU, None)):
        b = c.build(f'callables-asan-{impl}-{api}', ['callables.cpp'], impl=impl, cxx='g++', opt='-O0', flags=f + (['-DUSE_CALLCC'] if api == 'callcc' else [])); c.run(b.name, b, ['--episodes', c.scale(3, 100)], env=e)
    b = c.build('helpers-asan', ['helpers.cpp'], impl=None, flags=['-fsanitize=address,undefined']); c.run(b.name, b, ['--seed', c.sub('hs'), '--episodes', c.scale(200, 5000)])
    n = c.scale(300, 8000)
    for impl in ('asm', 'uctx'):
        for api in ('fiber', 'callcc'): machine(c, f'{impl}-{api}-11', impl, api, n, std='c++11'); life(c, f'{impl}-{api}-20', c.scale(25, 800), impl, api, std='c++20', cxx='clang++', mode='ontop')
    c.meta = dict(eval=('creations', 'helper_checks'), distinct=('distinct_creations', 'distinct_helper_inputs'),
                  rule='an evaluation is one context created from an instrumented callable and stack allocator (16 kinds of function objects and 6 of allocators with every copy, move, use and destruction tracked, plus 25 library and language '
                       'callables), passed as lvalue, const lvalue or rvalue in each of the ways to create a context, and finished, unwound or never started; or one use of invoke/apply/exchange/head/tail compared with the standard result; '
                       'all of it has to compile under each standard and compiler; distinct: different (callable, way, ending, category) and random inputs of the helpers', assumptions=ASSUME)
    c.post.append(lambda c: c.need('creations', 50000)); c.post.append(lambda c: c.need('helper_checks', 10000))

# ------------------------------------------------------------------ resources
def C19(c):
    def p(tag, impl='asm', api='fiber', modes=('pure', 'bounded'), **k):
        b = c.build(f'pure-{tag}', ['pure.cpp'], impl=impl, link=['-lpthread', '-Wl,-z,now'], **dict(k, flags=list(k.get('flags', ())) + (['-DUSE_CALLCC'] if api == 'callcc' else [])))
        for m in modes: c.run(f'pure-{tag}-{m}', b, ['--seed', c.sub('pure' + tag), '--mode', m, '--episodes', c.scale(8000, 400000) if m == 'pure' else c.scale(20000, 1000000) // (4 if impl == 'uctx' or 'O0' in tag else 1)], timeout=c.scale(120, 3600))
    p('fa'); p('ca', api='callcc', opt='-O2', flags=ND); p('fu', 'uctx', cxx='clang++', opt='-O2'); p('cu', 'uctx', 'callcc'); p('fa-cl', cxx='clang++', opt='-O2', std='c++11'); p('ca-O0', api='callcc', opt='-O0', std='c++20')
    p('tsx', flags=TSX); p('guard', api='callcc', flags=GUARD, opt='-O2')
    p('mapstack', flags=MAPST, modes=('bounded',)); p('mapstack-cu', 'uctx', 'callcc', flags=MAPST, modes=('bounded',))
    c.meta = dict(eval=('pure_switches', 'pure_creations', 'pure_ontops', 'bounded_cycles', 'bounded_switches'), distinct=('pure_programs',),
                  rule='an evaluation is one creation, start, switch, function on top, ending or unwinding in a random program of a process whose every system call traps (seccomp) and whose every malloc/free is intercepted, or one of '
                       'millions of switches and create/finish/unwind cycles after which stack depth, heap in use, resident memory and number of mappings are compared with their values early on; distinct: random programs', assumptions=ASSUME)
    c.post.append(lambda c: c.need('pure_switches', 1000000)); c.post.append(lambda c: c.need('bounded_cycles', 500000))

# ------------------------------------------------------------------ flavours
EXAMPLES = ('fiber/echosse', 'fiber/fibonacci', 'fiber/jump', 'fiber/jump_mov', 'fiber/jump_void', 'fiber/ontop', 'fiber/ontop_void', 'fiber/parser', 'fiber/stack', 'fiber/throw',
            'callcc/echosse', 'callcc/fibonacci', 'callcc/jump', 'callcc/jump_mov', 'callcc/jump_void', 'callcc/ontop', 'callcc/ontop_void', 'callcc/parser', 'callcc/stack')
def flavours():
    """name -> (implementation, further arguments); every API is built in every one of them"""
    F = [('asm', dict()), ('uctx', dict(impl='uctx')), ('seg', dict(impl='seg')), ('winfib', dict(impl='winfib')), ('asm-O0', dict(opt='-O0')), ('asm-O2n', dict(opt='-O2', flags=ND)), ('asm-O3-cl', dict(opt='-O3', cxx='clang++')),
         ('asm-Os-lto', dict(opt='-Os', flags=['-flto'])), ('uctx-O2n-cl', dict(impl='uctx', opt='-O2', flags=ND, cxx='clang++')), ('uctx-O3-lto', dict(impl='uctx', opt='-O3', flags=['-flto'])), ('uctx-O0-cl', dict(impl='uctx', opt='-O0', cxx='clang++')),
         ('asm-11', dict(std='c++11')), ('asm-14-cl', dict(std='c++14', cxx='clang++')), ('asm-20', dict(std='c++20', opt='-O2')), ('uctx-11-cl', dict(impl='uctx', std='c++11', cxx='clang++')), ('uctx-14', dict(impl='uctx', std='c++14')), ('uctx-20-cl', dict(impl='uctx', std='c++20', cxx='clang++')),
         ('asm-mapstack', dict(flags=MAPST)), ('uctx-mapstack', dict(impl='uctx', flags=MAPST)), ('asm-valgrind', dict(flags=['-DBOOST_USE_VALGRIND'])), ('uctx-valgrind', dict(impl='uctx', flags=['-DBOOST_USE_VALGRIND'])),
         ('asm-tsx', dict(flags=TSX)), ('asm-guard', dict(flags=GUARD)), ('asm-guard-tsx', dict(flags=GUARD + TSX, opt='-O2')), ('asm-shared', dict(shared=True)), ('uctx-shared', dict(impl='uctx', shared=True, opt='-O2')), ('seg-shared', dict(impl='seg', shared=True)),
         ('asm-lib-cl', dict(libcxx='clang++', libopt='-O3', opt='-O0')), ('uctx-lib-cl', dict(impl='uctx', libcxx='clang++', libstd='c++11', std='c++20', libopt='-O2')), ('asm-lib-11', dict(libstd='c++11', std='c++17', libopt='-O0', opt='-O2', cxx='clang++', libcxx='g++')),
         ('asm-native', dict(flags=['-march=native', '-fcf-protection=full'], opt='-O2')), ('asm-nopie', dict(flags=['-no-pie', '-fno-pie', '-fomit-frame-pointer'], opt='-O2')), ('asm-pic', dict(flags=['-fPIC', '-fno-omit-frame-pointer', '-fno-plt'])), ('seg-O2', dict(impl='seg', opt='-O2', flags=ND)),
         ('asm-nortti', dict(flags=['-fno-rtti'], opt='-O2')), ('uctx-nortti', dict(impl='uctx', flags=['-fno-rtti', '-fno-threadsafe-statics'])), ('asm-23', dict(std='c++23')), ('uctx-23-cl', dict(impl='uctx', std='c++23', cxx='clang++', opt='-O3')),
         ('asm-nohelp', dict(flags=['-DBOOST_NO_CXX17_STD_INVOKE', '-DBOOST_NO_CXX14_STD_EXCHANGE'])), ('asm-asan', dict(flags=ASANA, env=NOFAKE)), ('uctx-asan', dict(impl='uctx', flags=ASANU)), ('uctx-tsan', dict(impl='uctx', flags=TSANU))]
    return F
def C20(c):
    n = c.scale(500, 12000)
    for api in ('fiber', 'callcc', 'counterpart'):
        for i, (t, d) in enumerate(flavours()):
            d = dict(d); d.setdefault('impl', 'asm')
            if api == 'callcc' and 'tsan' in t: continue              # no support for it in continuation
            if c.quick and i > 3 and api != ('fiber', 'callcc', 'counterpart')[i % 3] and not (api == 'fiber' and 'tsan' in t): continue
            f = list(d.pop('flags', ())) + (['-DCOUNTERPART'] if api == 'counterpart' else [])
            m = 3 if 'san' in t else 1
            machine(c, f'{t}-{api}', api='callcc' if api == 'callcc' else 'fiber', episodes=n // m, seed=c.sub('flavours'), args=['--hashes', 1], flags=f, must='shared' in d, group='callcc' if api == 'counterpart' else api, **d)
    for i, (t, d) in enumerate((('asm', {}), ('uctx', dict(impl='uctx')), ('winfib', dict(impl='winfib')), ('uctx-clang-cxx11', dict(impl='uctx', cxx='clang++', std='c++11', opt='-O2')), ('asm-clang-cxx20', dict(cxx='clang++', std='c++20', opt='-O2', flags=ND)),
                              ('asm-cxx11-tsx', dict(std='c++11', flags=TSX[:1])), ('seg', dict(impl='seg')), ('uctx-asan', dict(impl='uctx', flags=ASANU)), ('uctx-O2-cxx20', dict(impl='uctx', opt='-O2', std='c++20', flags=ND)),
                              ('asm-O0-cxx14', dict(opt='-O0', std='c++14')))):
        if c.quick and i > 5: continue
        b = c.build('both-' + t, ['both.cpp', 'both2.cpp'], must_compile='winfib' != t, **d)
        c.run('both-' + t, b, ['--seed', c.sub('both'), '--episodes', c.scale(300, 5000)], group='both')
    for e in EXAMPLES:
        src = f'{REPO}/example/{e}.cpp'
        if not os.path.exists(src): continue
        for t, d in (('a', dict(opt='-O0')), ('u', dict(impl='uctx', opt='-O2', cxx='clang++', std='c++11')), ('s', dict(impl='asm', std='c++20', opt='-O2', flags=TSX[:1])))[:2 if c.quick else 3]:
            b = c.build(f'example-{e.replace("/", "-")}-{t}', [src], **d); c.run(b.name, b, group='example ' + e)
    def compare(c):
        groups = {}; names = [x.name for x in c.runs]
        for r in c.results:
            if r.run.group and r.rc == 0: groups.setdefault(r.run.group, []).append(r)
        traces = 0
        for g, rs in sorted(groups.items()):
            rs.sort(key=lambda r: names.index(r.run.name))
            key = lambda r: re.findall(r'^HASH .*$', r.out, re.M) if not g.startswith('example') else r.out.splitlines()
            ref = key(rs[0])
            for r in rs[1:]:
                k = key(r); traces += min(len(k), len(ref))
                for i, (x, y) in enumerate(zip(ref, k)):
                    if x != y:
                        c.violation('oracle', r.run.name, f'{g}: behaves differently from {rs[0].run.name}: item {i}: "{y[:80]}" instead of "{x[:80]}"', r); break
                if g.startswith('example') and len(ref) != len(k): c.violation('oracle', r.run.name, f'{g}: {len(k)} lines of output, {rs[0].run.name} has {len(ref)}', r)
        c.stats['traces_compared'] = traces; c.stats['flavours'] = len([r for r in c.results if r.run.group in ('fiber', 'callcc')])
    c.post.append(compare)
    machine_meta(c); c.meta['eval'] = ('traces_compared',); c.meta['distinct'] = ('distinct_nontrivial_traces',)
    c.meta['rule'] = ('an evaluation is the comparison of the complete event trace (64 bit hash) of one random program in one flavour with the reference flavour (in groups fiber, and callcc together with the same programs on fiber + resume), or one line '
                      'of output of an example program; distinct: by trace and build')
    c.post.append(lambda c: c.need('traces_compared', 10000))
