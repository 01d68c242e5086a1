"""An emulator for the instructions the ports of fcontext for other CPUs consist of, and the monitor that runs random programs of contexts on it.

The sources are assembled by clang and linked by lld; the disassembly is executed instruction by instruction.  Calls of make/jump/ontop_fcontext are made by the
monitor, which also plays the context-functions and the functions on top: it fills the callee-saved registers, builds frames, and judges every arrival."""
import os, random, re, subprocess, sys

class Skip(Exception): pass                # cannot be built or emulated: reported as not covered, never as a violation
class Fail(Exception):
    def __init__(self, rule, text): super().__init__(f'{rule}: {text}')

M64 = (1 << 64) - 1
def sx(v, b): v &= (1 << b) - 1; return v - (1 << b) if v >> (b - 1) else v
def num(s): return int(s.lstrip('#'), 0)

class Region:
    def __init__(s, lo, size, name): s.lo, s.hi, s.name, s.b, s.limit = lo, lo + size, name, bytearray(size), None

class Arch:
    big = False; bits = 64; redzone = 0; bias = 0; hidden = False; ret_off = 0
    asmflags = []; image = 0x100000
    fctl = None                            # floating-point control register the port promises to keep
    frame_up = 0                           # bytes above its own stack pointer a callee may write
    call_align = 16
    entry_push = 0                         # what a call pushes
    block = 0; fields = ()                 # the thread block and what of it belongs to a context
    def own_state(s, m):
        for o in s.fields: n = s.bits // 8; s.tib.b[o:o + n] = m.garbage(n)
    def field(s, o): n = s.bits // 8; return int.from_bytes(s.tib.b[o:o + n], 'big' if s.big else 'little')
    def entry_check(s, m, c, what): pass
    def call_made(s, m, c): pass
    def arrival(s, at, what, function): pass
    def __init__(s): s.r = {}; s.init()
    def init(s): pass
    # ---- tools
    def build(s, repo, work, name):
        objs = []
        src = [f'{repo}/src/asm/{m}_{s.file}' for m in ('make', 'jump', 'ontop')]
        if s.convert:
            for i, f in enumerate(src): src[i] = f'{work}/{name}.{i}.S'; open(src[i], 'w').write(s.convert(open(f).read()))
        stub = f'{work}/{name}.stub.S'; open(stub, 'w').write('.text\n.globl _exit\n_exit: .long 0\n.long 0\n.long 0\n.long 0\n')
        for i, f in enumerate(src + [stub] + s.extra(repo, work)):
            o = f'{work}/{name}.{i}.o'; r = subprocess.run(['clang', '--target=' + s.triple, '-nostdinc', '-w', '-Wno-error'] + s.asmflags + (s.cflags if f.endswith('.cpp') else []) + ['-c', f, '-o', o], capture_output=True, text=True)
            if r.returncode: raise Skip('assembler: ' + r.stderr[:300])
            s.object_made(o); objs.append(o)
        lld = f'{work}/ld.lld'
        if not os.path.exists(lld):
            try: os.symlink('/usr/bin/lld', lld)
            except FileExistsError: pass
        exe = f'{work}/{name}.elf'
        r = subprocess.run([lld, f'-Ttext={s.image:#x}', '--no-relax', '-e', 'make_fcontext'] + s.ldflags + objs + ['-o', exe], capture_output=True, text=True)
        if r.returncode: raise Skip('linker: ' + r.stderr[:300])
        s.load(exe)
    ldflags = []; cflags = []; convert = None
    def extra(s, repo, work): return []
    def object_made(s, o): pass
    def load(s, exe):
        d = subprocess.run(['llvm-objdump', '-d', '--no-show-raw-insn'] + s.dumpflags + [exe], capture_output=True, text=True).stdout
        s.text = {}; order = []
        for l in d.splitlines():
            m = re.match(r'^\s*([0-9a-f]+):\s+(.*)$', l)
            if m: a = int(m[1], 16); t = re.sub(r'\s*(@|//|#\s|<).*$', '', m[2].split('\t#')[0]).strip(); s.text[a] = t; order.append(a)
        s.nexta = {a: b for a, b in zip(order, order[1:])}
        s.sym = {}
        n = subprocess.run(['llvm-nm', exe], capture_output=True, text=True).stdout
        for l in n.splitlines():
            p = l.split()
            if len(p) == 3: s.sym[p[2]] = int(p[0], 16)
        h = subprocess.run(['llvm-readelf', '-l', '-W', exe], capture_output=True, text=True).stdout
        data = open(exe, 'rb').read(); s.segs = []
        for l in h.splitlines():
            m = re.match(r'\s+LOAD\s+(0x\w+)\s+(0x\w+)\s+0x\w+\s+(0x\w+)\s+(0x\w+)', l)
            if m: off, va, fs, ms = [int(x, 16) for x in m.groups()]; r = Region(va, max(ms, 1), 'image'); r.b[:fs] = data[off:off + fs]; s.segs.append(r)
        for f in ('make_fcontext', 'jump_fcontext', 'ontop_fcontext', '_exit'):
            if f not in s.sym: raise Skip('no symbol ' + f)
    dumpflags = []
    # ---- memory
    def region(s, a, n):
        for r in s.regs_:
            if r.lo <= a and a + n <= r.hi: return r
    def ld(s, a, n):
        a &= s.mask; r = s.region(a, n)
        if not r: 
            for g in s.segs:
                if g.lo <= a and a + n <= g.hi: return int.from_bytes(g.b[a - g.lo:a - g.lo + n], 'big' if s.big else 'little')
            raise Fail('wild-read', f'{n} bytes at {a:#x} read at {s.where()}')
        s.check(r, a, n, 'read'); o = a - r.lo; return int.from_bytes(r.b[o:o + n], 'big' if s.big else 'little')
    def st(s, a, n, v):
        a &= s.mask; r = s.region(a, n)
        if not r: raise Fail('wild-write', f'{n} bytes at {a:#x} written at {s.where()}')
        s.check(r, a, n, 'written'); o = a - r.lo; r.b[o:o + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'big' if s.big else 'little')
        s.stores.append((a, n))
    def check(s, r, a, n, what):
        s.accesses += 1
        lim = r.limit
        if lim is not None and a < lim: raise Fail('below-stack-pointer', f'{n} bytes at {a:#x}, {lim - a} bytes below the live part of {r.name}, {what} at {s.where()}')
    def where(s): return f'{s.pc:#x} ({s.text.get(s.pc, "?")})'
    def spv(s): return (s.r[s.sp] + s.bias) & s.mask
    def getsp(s): return s.spv()
    def step(s):
        t = s.text.get(s.pc)
        if t is None: raise Fail('wild-jump', f'to {s.pc:#x} from {s.prev:#x} ({s.text.get(s.prev)})')
        f = s.dec.get(s.pc)
        if f is None:
            if not t or re.search(r'\.(word|long)|^(udf|unimp|trap|ud2|int3|illegal)\b|<unknown>', t): raise Fail('wild-jump', f'no instruction at {s.pc:#x}, reached from {s.prev:#x} ({s.text.get(s.prev)})')
            p = t.replace('\t', ' ').split(None, 1); mn = p[0]; op = p[1] if len(p) > 1 else ''
            f = s.decode(mn, op, s.pc)
            if f is None: raise Skip(f'instruction {t!r}')
            s.dec[s.pc] = f
        s.npc = s.nexta.get(s.pc, s.pc + 4); f()
        s.prev = s.pc; s.pc = s.npc; s.instructions += 1
    def operands(s, op):
        out, d, cur = [], 0, ''
        for ch in op:
            if ch in '[({': d += 1
            if ch in '])}': d -= 1
            if ch == ',' and not d: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out

# ---------------------------------------------------------------------------------------------------------------- the monitor
class Ctx: pass
class Monitor:
    def __init__(m, arch, seed):
        m.a, m.R = arch, random.Random(seed); m.stat = {k: 0 for k in ('emulated_jumps', 'emulated_ontops', 'emulated_contexts', 'emulated_entries', 'emulated_returns', 'emulated_registers_compared', 'emulated_instructions', 'emulated_accesses', 'emulated_clobbers')}
        m.kinds = set()
    def rnd(m, bits=None): return m.R.getrandbits(bits or m.a.bits)
    def garbage(m, n): return m.R.randbytes(n)

    def episode(m, ops):
        a = m.a; a.pc = a.prev = 0; a.mask = (1 << a.bits) - 1; a.dec = getattr(a, 'dec', {}); a.instructions = a.accesses = 0; a.stores = []
        base = 0x7fa000000000 if a.bits == 64 else 0x70000000
        n = m.R.randint(3, 6); a.regs_ = []; m.ctxs = []
        for i in range(n):
            size = 4096; r = Region(base + i * 0x10000 + 16 * m.R.randint(0, 200), size, f'stack {i}'); r.b[:] = m.garbage(size); a.regs_.append(r)
            c = Ctx(); c.i, c.r, c.state, c.handle = i, r, 'none', None; m.ctxs.append(c)
        if a.block: a.tib = Region(base + 0x900000, a.block, 'thread block'); a.tib.b[:] = m.garbage(a.block); a.regs_.append(a.tib)
        a.reset(m)
        main = m.ctxs[0]; main.state = 'running'; m.cur = main; main.sp = m.align_down(main.r.hi - 512); main.frames = []
        a.enter_main(m, main.sp); m.entered(main, main.sp)
        for k in range(ops):
            m.op = k
            x = m.R.random()
            fresh = [c for c in m.ctxs if c.state == 'fresh']; susp = [c for c in m.ctxs if c.state == 'suspended']; none = [c for c in m.ctxs if c.state == 'none']
            if none and (x < 0.25 or not (fresh or susp)): m.make(m.R.choice(none))
            elif fresh and (x < 0.5 or not susp): m.jump(m.R.choice(fresh))
            elif susp and x < 0.8: m.jump(m.R.choice(susp))
            elif susp: m.ontop(m.R.choice(susp))
        # the context-function returns: the process exits with status 0
        if m.cur is not main and m.cur.entered: m.finish()
        m.stat['emulated_instructions'] += a.instructions; m.stat['emulated_accesses'] += a.accesses
    def align_down(m, x): return x & ~(m.a.call_align - 1)

    # a function starts with its stack pointer at sp: it builds a frame and fills what the convention lets it fill
    def entered(m, c, sp, above=True):
        a = m.a
        if above and a.frame_up:
            for lo, hi in a.up_ranges(sp):
                r = c.r
                if hi > r.hi or lo < r.lo: raise Fail('region', f'a callee of context {c.i} may write [{lo:#x},{hi:#x}), outside its stack [{r.lo:#x},{r.hi:#x})')
                r.b[lo - r.lo:hi - r.lo] = m.garbage(hi - lo)
        fsize = a.min_frame + a.call_align * m.R.randint(1, 6)
        new = sp - fsize
        if new < c.r.lo + 1024: raise Fail('harness', 'stack exhausted')
        c.frames.append(sp); c.sp = new
        # canaries in the frame, except where callees may write
        o = new - c.r.lo; c.r.b[o:sp - c.r.lo] = m.garbage(fsize)
        a.set_sp(new); a.new_frame(m, c, new, sp)
        c.r.limit = max(c.r.lo, new - a.redzone)
    def snapshot(m, c):
        a = m.a; keep = {}
        up = a.up_ranges(c.sp) if a.frame_up else []
        lo = c.sp - c.r.lo; b = bytearray(c.r.b[lo:c.frames[0] - c.r.lo])
        for l, h in up: 
            b[l - c.sp:h - c.sp] = bytes(h - l)
        return b
    def call(m, fn, args, hidden):
        """the running context calls fn: returns the record of what it expects on return"""
        a, c = m.a, m.cur
        rec = Ctx(); a.scramble(m); a.own_state(m); rec.sp = c.sp; rec.ra = m.new_ra(); rec.hidden = None
        if hidden:
            rec.hidden = c.sp + a.hidden_off; args = [rec.hidden] + args
        a.set_call(m, fn, args, rec.ra); rec.regs = a.callee_saved(); c.call = rec
        rec.snap = m.snapshot(c)
        for r in a.regs_: r.touched = False
        return rec
    _ra = 0
    def new_ra(m): m._ra += 1; return 0x4000000 + m._ra * 16
    def run(m, stops):
        a = m.a; cur = None
        for k in range(3000):
            if a.pc in stops or a.pc >= 0x4000000: break
            a.step()
            sp = a.spv()
            if not a.sp_any():
                r = a.region(sp, 0)
                if not r: raise Fail('stack-pointer', f'the stack pointer is {sp:#x} after {a.text.get(a.prev)} at {a.prev:#x}')
                if r.limit is None: raise Fail('stack-pointer', f'the stack pointer is in {r.name}, which holds no context')
                if sp - a.redzone > r.limit and r is not m.target_r and r is not m.cur.r: raise Fail('stack-pointer', f'the stack pointer is in {r.name}')
                r.limit = sp - a.redzone
                # a signal handler runs here
                lo = max(r.lo, r.limit - 96); r.b[lo - r.lo:max(r.lo, r.limit) - r.lo] = m.garbage(max(r.lo, r.limit) - lo); m.stat['emulated_clobbers'] += 1
        else: raise Fail('endless', f'no end after 3000 instructions at {a.where()}')
        return a.pc
    def compare(m, c, rec, what, push=0):
        a = m.a
        if a.spv() + push != rec.sp: raise Fail('stack-pointer', f'{what}: context {c.i} continues with stack pointer {a.spv():#x} instead of {rec.sp:#x}')
        now = a.callee_saved()
        for k, v in rec.regs.items():
            m.stat['emulated_registers_compared'] += 1
            if now[k] != v: raise Fail('callee-saved', f'{what}: register {k} of context {c.i} is {now[k]:#x} instead of {v:#x}')
    def compare_frame(m, c, rec, what):
        s = m.snapshot(c); h = rec.hidden
        if h is not None: 
            for i in range(2 * m.a.bits // 8): s[h - c.sp + i] = rec.snap[h - c.sp + i]
        for e in m.a.frame_exempt(c.sp): s[e[0] - c.sp:e[1] - c.sp] = rec.snap[e[0] - c.sp:e[1] - c.sp]
        if s != rec.snap:
            i = next(i for i in range(len(s)) if s[i] != rec.snap[i]); raise Fail('frame', f'{what}: byte sp+{i} of a suspended frame of context {c.i} changed')
    def make(m, c):
        a = m.a; m.target_r = None
        top = c.r.hi - 64 - m.R.randint(0, 70); size = top - c.r.lo; c.fn = m.new_ra()
        c.r.b[:] = m.garbage(len(c.r.b)); before = bytes(c.r.b); c.r.limit = c.r.lo
        me = m.cur; rec = m.call('make_fcontext', [top, size, c.fn], False); m.target_r = c.r
        pc = m.run({rec.ra})
        if pc != rec.ra: raise Fail('control', f'make_fcontext went to {pc:#x}')
        m.compare(me, rec, 'make_fcontext'); m.compare_frame(me, rec, 'make_fcontext')
        h = a.ret(0); a.call_made(m, c)
        if not (c.r.lo <= h + a.bias_h <= top): raise Fail('region', f'make_fcontext returned {h:#x} for the region [{c.r.lo:#x},{top:#x})')
        if bytes(c.r.b[top - c.r.lo:]) != before[top - c.r.lo:]: raise Fail('region', 'make_fcontext wrote above the given stack top')
        lo = h + a.bias_h - c.r.lo
        if bytes(c.r.b[:lo]) != before[:lo]: raise Fail('region', 'make_fcontext wrote below the handle it returned')
        c.handle, c.state, c.top, c.size, c.frames, c.entered, c.ctl = h, 'fresh', top, size, [], False, a.ctl()
        c.r.limit = h + a.bias_h - a.redzone; c.above = bytes(c.r.b[top - c.r.lo:]); m.stat['emulated_contexts'] += 1
    def jump(m, t): m.switch(t, False)
    def ontop(m, t): m.switch(t, True)
    def switch(m, t, top):
        a, me = m.a, m.cur; data = m.rnd(); m.target_r = t.r
        fn = m.new_ra()
        rec = m.call('ontop_fcontext' if top else 'jump_fcontext', [t.handle, data] + ([fn] if top else []), a.hidden)
        old = (t.state, t.handle); th = t.handle; exp = fn if top else t.fn if t.state == 'fresh' else t.call.ra
        m.kinds.add((t.state, top, me.state, (t.r.hi - t.handle) & 15 if t.state == 'fresh' else me.sp & 255))
        pc = m.run({exp})
        what = ('ontop' if top else 'jump') + f' from context {me.i} to context {t.i} ({t.state})'
        if pc != exp: raise Fail('control', f'{what} went to {pc:#x} ({a.text.get(pc, "?")})')
        me.state = 'suspended'; m.cur = t
        a.arrival(exp, what, t.state == 'fresh' or top)
        r = a.region(a.spv(), 0)
        if r is not t.r: raise Fail('stack-pointer', f'{what}: stack pointer {a.spv():#x} is not in the stack of the target')
        if t.state == 'fresh' and not top:
            m.stat['emulated_entries'] += 1; sp = a.spv() + a.entry_push
            h, d = a.args_transfer(m)
            if sp > t.top: raise Fail('region', f'{what}: stack pointer {sp:#x} above the stack top {t.top:#x}')
            if (sp + a.entry_skew) % a.call_align: raise Fail('alignment', f'{what}: the context-function is entered with stack pointer {sp:#x}')
            if a.fctl and a.ctl() != t.ctl: raise Fail('fp-control', f'{what}: floating-point control is {a.ctl():#x}, that of the creator was {t.ctl:#x}')
            t.entered = True; t.ra = a.get_ra(); t.entry_regs = a.callee_saved(); t.entry_sp = sp; t.state = 'running'
            a.entry_check(m, t, what); m.handle_check(me, h, what); me.handle = h
            if d != data: raise Fail('data', f'{what}: data pointer {d:#x} instead of {data:#x}')
            m.entered(t, sp)
        else:
            if top:
                m.stat['emulated_ontops'] += 1; h, d = a.args_transfer(m)
                if a.tail_frame:
                    if not t.call.sp - a.tail_frame <= a.spv() + a.entry_push <= t.call.sp or a.spv() % a.call_align: raise Fail('stack-pointer', f'{what}: function on top entered with {a.spv():#x}, context suspended with {t.call.sp:#x}')
                else:
                    if a.spv() + a.entry_push != t.call.sp: raise Fail('stack-pointer', f'{what}: function on top entered with {a.spv():#x} instead of {t.call.sp:#x}')
                    m.compare(t, t.call, what + ', function on top', a.entry_push)
                if a.fn_ra(t.call.ra) != a.get_ra() and not a.tail_frame: raise Fail('control', f'{what}: the function on top would return to {a.get_ra():#x}')
                m.handle_check(me, h, what); me.handle = h
                if d != data: raise Fail('data', f'{what}: data pointer {d:#x} instead of {data:#x}')
                # the function uses the stack, then returns other values
                if a.frame_up:
                    for lo, hi in a.up_ranges(a.spv() + a.entry_push): t.r.b[lo - t.r.lo:hi - t.r.lo] = m.garbage(hi - lo)
                sp = a.spv() - a.redzone; t.r.b[max(0, sp - 300 - t.r.lo):sp - t.r.lo] = m.garbage(min(300, sp - t.r.lo)); v = (me.handle, m.rnd()); data = v[1]
                a.return_transfer(m, v, t.call); pc = m.run({t.call.ra})
                if pc != t.call.ra: raise Fail('control', f'{what}: after the function on top control is at {pc:#x}')
            else: m.stat['emulated_jumps'] += 1
            m.compare(t, t.call, what)
            h, d = a.ret_transfer(m, t.call)
            if not top: m.handle_check(me, h, what)
            elif h != me.handle: raise Fail('data', f'{what}: handle {h:#x} returned instead of the one the function returned ({me.handle:#x})')
            me.handle = h
            if d != data: raise Fail('data', f'{what}: data pointer {d:#x} instead of {data:#x}')
            t.state = 'running'; m.compare_frame(t, t.call, what); t.r.limit = t.sp - a.redzone
            # a new frame, or back into an outer one? the same frame goes on
        if t.handle is not None and hasattr(t, 'above') and bytes(t.r.b[t.top - t.r.lo:]) != t.above: raise Fail('region', f'{what}: bytes above the stack top changed')
        a.after_switch(m, me, t)
    def handle_check(m, me, h, what):
        x = h + m.a.bias_h
        if not (me.r.lo <= x <= me.sp): raise Fail('handle', f'{what}: handle {h:#x} of the jumper is not in its stack [{me.r.lo:#x},{me.sp:#x}]')
        me.r.limit = x - m.a.redzone
    def finish(m):
        a, c = m.a, m.cur; m.target_r = None
        # the function restores what it has to and returns
        a.leave_entry(m, c); c.r.limit = c.entry_sp - a.entry_push - a.redzone
        lo = c.entry_sp - 400 - c.r.lo; c.r.b[lo:c.entry_sp - a.redzone - c.r.lo] = m.garbage(c.entry_sp - a.redzone - c.r.lo - lo)
        if a.frame_up:
            for l, h in a.up_ranges(c.entry_sp): c.r.b[l - c.r.lo:h - c.r.lo] = m.garbage(h - l)
        a.entry_return(m, c)
        pc = m.run({a.sym['_exit']})
        if pc != a.sym['_exit']: raise Fail('control', f'a context-function returned: control is at {pc:#x} instead of _exit()')
        if a.arg(0) & 0xffffffff: raise Fail('exit', f'a context-function returned: exit status {a.arg(0):#x}')
        if (a.spv() + a.entry_push + a.entry_skew) % a.call_align: raise Fail('alignment', '_exit() called with a misaligned stack')
        m.stat['emulated_returns'] += 1
