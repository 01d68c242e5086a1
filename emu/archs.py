import re
from core import *

def armasm(t):
    """the syntax of Microsoft's assembler"""
    out = []
    for l in t.splitlines():
        l = l.split(';')[0].rstrip(); w = l.split()
        if not w or w[0].upper() in ('AREA', 'EXPORT', 'IMPORT', 'ALIGN', 'ENDP', 'END'): continue
        if len(w) >= 2 and w[1].upper() == 'PROC': out += ['.globl ' + w[0], w[0] + ':']
        elif l[0] not in ' \t' and len(w) == 1: out.append(l.rstrip(':') + ':')
        else: out.append(re.sub(r'\bmrc(\s+p15),\s*#0', r'mrc\1, #0', l))
    return '.text\n' + '\n'.join(out) + '\n'
def macho(comment):
    def f(t):
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        return '\n'.join(re.sub(r'\b_(make_fcontext|jump_fcontext|ontop_fcontext|_exit)\b', r'\1', l.split(comment)[0]) for l in t.splitlines() if not l.strip().startswith('.private_extern')) + '\n'
    return f
def gnupe(t):
    t = t.split('.section .drectve')[0]
    return '\n'.join(re.sub(r'^\.def\s+(\w+_fcontext).*', r'.globl \1', l) for l in t.splitlines() if not l.startswith('.seh_') and not l.startswith('.def\t_exit')) + '\n'

class Risc(Arch):
    """what is common: registers by name, arguments and results in registers"""
    gprs = []; fprs = []; saved = []; fsaved = []; args = []; rets = []; ra = None; other = []; min_frame = 0; hidden_off = 16; entry_skew = 0; bias_h = 0; zero = None; consts = ()
    def reset(s, m):
        for k in s.gprs + s.fprs + s.other: s.r[k] = m.rnd(64) & (s.mask if k in s.gprs else M64)
        if s.fctl: s.r[s.fctl] = m.rnd(32) & s.fctl_mask
        s.fixed(m)
    def fixed(s, m): pass
    def enter_main(s, m, sp): s.set_sp(sp)
    def set_sp(s, v): s.r[s.sp] = v
    def new_frame(s, m, c, new, old): pass
    def scramble(s, m):
        for k in s.gprs + s.fprs + s.other:
            if k != s.sp and k not in s.consts: s.r[k] = m.rnd(64) & (s.mask if k in s.gprs else M64)
        if s.fctl: s.r[s.fctl] = m.rnd(32) & s.fctl_mask
    def set_call(s, m, fn, args, ra):
        for r, v in zip(s.args, args): s.r[r] = v & s.mask
        s.r[s.ra] = ra; s.pc = s.sym[fn]
    def callee_saved(s):
        d = {k: s.r[k] for k in s.saved}; d.update({k: s.r[k] & s.fmask(k) for k in s.fsaved})
        if s.fctl: d[s.fctl] = s.r[s.fctl] & s.fctl_mask
        for o in s.fields: d[f'thread block+{o:#x}'] = s.field(o)
        return d
    def fmask(s, k): return M64
    def ctl(s): return s.r[s.fctl] & s.fctl_mask if s.fctl else 0
    def ret(s, i): return s.r[s.rets[i]]
    def arg(s, i): return s.r[s.args[i]]
    def args_transfer(s, m):
        if s.by_reference: p = s.arg(0); n = s.bits // 8; return s.ld(p, n), s.ld(p + n, n)
        if s.hidden: return s.arg(1), s.arg(2)
        return s.arg(0), s.arg(1)
    by_reference = False
    def ret_transfer(s, m, rec):
        if s.hidden: n = s.bits // 8; return s.ld(rec.hidden, n), s.ld(rec.hidden + n, n)
        return s.ret(0), s.ret(1)
    def return_transfer(s, m, v, rec):
        keep = s.callee_saved(); sp = s.r[s.sp]; ra = s.get_ra()
        hp = s.arg(0) if s.hidden else None
        s.scramble(m); s.r.update(keep); s.r[s.sp] = sp
        if s.hidden:
            if hp != rec.hidden and not s.tail_frame: raise Fail('data', f'function on top: result to be stored at {hp:#x} instead of {rec.hidden:#x}')
            n = s.bits // 8; s.st(hp, n, v[0]); s.st(hp + n, n, v[1]); s.r[s.rets[0]] = hp
        else: s.r[s.rets[0]], s.r[s.rets[1]] = v[0] & s.mask, v[1] & s.mask
        s.pc = ra
    def get_ra(s): return s.r[s.ra]
    def fn_ra(s, ra): return ra
    def leave_entry(s, m, c):
        s.scramble(m); s.r.update(c.entry_regs); s.set_sp(c.entry_sp)
    def entry_return(s, m, c): s.r[s.ra] = c.ra if s.ra_kept else s.r[s.ra]; s.pc = c.ra
    ra_kept = False
    def up_ranges(s, sp): return []
    def frame_exempt(s, sp): return []
    tail_frame = 0                             # the function on top may be called from a frame of the port's own, of at most so many bytes
    def sp_any(s): return False
    def after_switch(s, m, me, t): pass
    def g(s, k): return 0 if k == s.zero else s.r[k]
    def p(s, k, v):
        if k != s.zero: s.r[k] = v & s.mask

# -------------------------------------------------------------------------------------------------------------- AArch64
class AArch64(Risc):
    triple, file, sp, zero, ra = 'aarch64-linux-gnu', 'arm64_aapcs_elf_gas.S', 'sp', 'xzr', 'x30'
    gprs = [f'x{i}' for i in range(31)] + ['sp']; fprs = [f'd{i}' for i in range(32)]; other = ['fpcr']
    saved = [f'x{i}' for i in range(19, 30)]; fsaved = [f'd{i}' for i in range(8, 16)]; args = [f'x{i}' for i in range(8)]; rets = ['x0', 'x1']
    def init(s): s.z = 0; s.cmp = (0, 0)
    def R(s, k):
        k = {'fp': 'x29', 'lr': 'x30'}.get(k, k)
        if k[0] == 'w': return (s.r['x' + k[1:]] if k != 'wzr' else 0) & 0xffffffff
        return s.g(k)
    def W(s, k, v):
        k = {'fp': 'x29', 'lr': 'x30'}.get(k, k)
        if k == 'wzr': return
        if k[0] == 'w': s.p('x' + k[1:], v & 0xffffffff)
        else: s.p(k, v)
    def decode(s, mn, op, pc):
        o = s.operands(op); R, W = s.R, s.W
        def val(x): return (lambda: num(x)) if x.startswith('#') else (lambda: R(x))
        def mem(k):                           # operands from index k: address, write-back
            t = o[k]; pre = t.endswith('!'); q = s.operands(t.rstrip('!')[1:-1]); b = q[0]; off = num(q[1]) if len(q) > 1 and q[1][0] == '#' else 0
            if len(q) > 1 and q[1][0] != '#': return None
            post = num(o[k + 1]) if len(o) > k + 1 else None
            def f():
                base = R(b)
                if b == 'sp' and base % 16: raise Fail('alignment', f'stack pointer {base:#x} used at {s.where()}')
                if post is not None: W(b, base + post); return base
                if pre: W(b, base + off)
                return base + off
            return f
        def size(r): return 8 if r[0] in 'xdl' or r == 'fp' else 16 if r[0] == 'q' else 4
        def rd(r): return s.r[r] if r[0] == 'd' else R(r)
        def wr(r, v):
            if r[0] == 'd': s.r[r] = v
            else: W(r, v)
        if mn in ('stp', 'ldp', 'str', 'ldr', 'stur', 'ldur'):
            two = mn.endswith('p'); n = size(o[0]); k = 2 if two else 1
            if o[0][0] in 'sqbh' and o[0] not in ('sp',): return None
            a = mem(k) if o[k].startswith('[') else None
            if a is None: return None
            # SP writeback before a store is no access below sp: the write-back happens with the access
            def f():
                st = mn[:2] == 'st'; vals = [rd(o[0])] + ([rd(o[1])] if two else [])
                ad = a(); 
                cur = s.region(s.spv(), 0)
                if cur is not None and cur.limit is not None and s.spv() - s.redzone < cur.limit and cur.lo <= ad < cur.hi: cur.limit = s.spv() - s.redzone
                for i in range(2 if two else 1):
                    if st: s.st(ad + i * n, n, vals[i])
                    else: wr(o[i], s.ld(ad + i * n, n))
            return f
        if mn in ('mov', 'movz'): v = val(o[1]); return lambda: W(o[0], v())
        if mn in ('add', 'sub', 'and', 'orr', 'eor', 'bic') and len(o) == 3:
            v = val(o[2]); fn = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'orr': lambda a, b: a | b, 'eor': lambda a, b: a ^ b, 'bic': lambda a, b: a & ~b}[mn]
            return lambda: W(o[0], fn(R(o[1]), v()))
        if mn in ('adr', 'adrp'): t = num(o[1]); return lambda: W(o[0], t)
        if mn in ('lsr', 'lsl'): v = val(o[2]); return lambda: W(o[0], R(o[1]) >> v() if mn == 'lsr' else R(o[1]) << v())
        def go(v): s.npc = v
        if mn == 'ret': return lambda: go(R(o[0]) if o else R('x30'))
        if mn == 'br': return lambda: go(R(o[0]))
        if mn == 'blr':
            def f(): t = R(o[0]); W('x30', pc + 4); go(t)
            return f
        if mn == 'b': t = num(o[0]); return lambda: go(t)
        if mn == 'bl':
            t = num(o[0])
            def f(): W('x30', pc + 4); go(t)
            return f
        if mn in ('cbz', 'cbnz'): t = num(o[1]); return lambda: go(t) if ( R(o[0]) == 0) == (mn == 'cbz') else None
        if mn in ('nop', 'bti', 'hint', 'paciasp', 'autiasp', 'pacibsp', 'autibsp'): return lambda: None
        if mn == 'mrs' and o[1].lower() == 'fpcr': return lambda: W(o[0], s.r['fpcr'])
        if mn == 'msr' and o[0].lower() == 'fpcr':
            def f(): s.r['fpcr'] = R(o[1])
            return f

class AArch64Macho(AArch64):
    file = 'arm64_aapcs_macho_gas.S'; consts = ('x18',)
    saved = AArch64.saved + ['x18']
    @staticmethod
    def convert(t): return re.sub(r'\blr\b', 'x30', re.sub(r'\bfp\b', 'x29', macho(';')(t)))
class AArch64Pe(AArch64):
    file = 'arm64_aapcs_pe_armclang.S'; consts = ('x18',); block = 0x1600; fields = (8, 0x10, 0x20, 0x1478)
    def fixed(s, m): s.r['x18'] = s.tib.lo
    @staticmethod
    def convert(t): return re.sub(r'\blr\b', 'x30', re.sub(r'\bfp\b', 'x29', gnupe(t)))
    def entry_check(s, m, c, what):
        lo = c.top - c.size
        for o, v, n in ((8, c.top, 'stack base'), (0x10, lo, 'stack limit'), (0x1478, lo, 'deallocation stack'), (0x20, 0, 'fiber data')):
            if s.field(o) != v: raise Fail('thread-block', f'{what}: the {n} is {s.field(o):#x} instead of {v:#x}')
class AArch64Armasm(AArch64Pe):
    file = 'arm64_aapcs_pe_armasm.asm'
    @staticmethod
    def convert(t): return re.sub(r'\blr\b', 'x30', re.sub(r'\bfp\b', 'x29', armasm(t)))

# -------------------------------------------------------------------------------------------------------------- ARM
class Arm(Risc):
    triple, file, sp, ra, bits = 'armv7-linux-gnueabihf', 'arm_aapcs_elf_gas.S', 'sp', 'lr', 32
    gprs = [f'r{i}' for i in range(13)] + ['sp', 'lr']; fprs = [f'd{i}' for i in range(32)]; asmflags = ['-mfloat-abi=hard', '-mfpu=vfpv3']
    saved = [f'r{i}' for i in range(4, 12)]; fsaved = [f'd{i}' for i in range(8, 16)]; args = ['r0', 'r1', 'r2', 'r3']; rets = ['r0', 'r1']; hidden = True; call_align = 8; min_frame = 32
    def args_transfer(s, m): # the hidden pointer is the first argument also of functions returning transfer_t; a context-function (void) gets the structure first
        if m.cur.state == 'fresh': return s.arg(0), s.arg(1)
        return s.arg(1), s.arg(2)
    def tls_bits(s): return 0
    def reglist(s, t):
        out = []
        for q in t.strip('{}').split(','):
            q = q.strip()
            if '-' in q: a, b = q.split('-'); out += [f'{a[0]}{i}' for i in range(int(a[1:]), int(b[1:]) + 1)]
            else: out.append({'r13': 'sp', 'r14': 'lr'}.get(q, q))
        return out
    def decode(s, mn, op, pc):
        o = s.operands(op); mn = mn.replace('.w', '')
        def R(k): return pc + 8 if k == 'pc' else s.r[k]
        def W(k, v):
            if k == 'pc': s.npc = v & ~1
            else: s.r[k] = v & s.mask
        def val(x): return (lambda: num(x)) if x.startswith('#') else (lambda: R(x))
        def block(base, regs, n, store, down, wb):
            b = R(base)
            a = b - n * len(regs) if down else b
            if wb and store: W(base, a if down else b + n * len(regs)); cur = s.region(s.spv(), 0); 
            if wb and store and base == 'sp' and cur is not None: cur.limit = min(cur.limit, s.spv())
            vals = [s.r[x] for x in regs] if store else None
            for i, x in enumerate(regs):
                if store: s.st(a + i * n, n, vals[i])
                else:
                    v = s.ld(a + i * n, n)
                    if x in s.fprs: s.r[x] = v
                    else: W(x, v)
            if wb and not store: W(base, a if down else b + n * len(regs))
        if mn in ('push', 'pop', 'vpush', 'vpop'):
            regs = s.reglist(op); n = 8 if mn[0] == 'v' else 4
            if any(x not in s.r and x != 'pc' for x in regs): return None
            return lambda: block('sp', regs, n, 'push' in mn, 'push' in mn, True)
        mm = re.match(r'^v?(stm|ldm)(ia|db|fd)?$', mn)
        if mm:
            base = o[0]; wb = base.endswith('!'); base = base.rstrip('!'); regs = s.reglist(op[op.index('{'):]); n = 8 if mn[0] == 'v' else 4; store = mm[1] == 'stm'; down = mm[2] == 'db' or (mm[2] == 'fd' and store)
            if any(x not in s.r and x != 'pc' for x in regs): return None
            return lambda: block(base, regs, n, store, down, wb)
        if mn in ('str', 'ldr', 'strd', 'ldrd', 'vstr', 'vldr'):
            if mn.endswith('d'): return None
            t = o[1]; pre = t.endswith('!'); q = s.operands(t.rstrip('!')[1:-1]); off = num(q[1]) if len(q) > 1 else 0; post = num(o[2]) if len(o) > 2 else None; n = 8 if mn[0] == 'v' else 4
            if len(q) > 1 and q[1][0] != '#': return None
            def f():
                b = R(q[0]); a = b if post is not None else b + off; st = mn.endswith('str'); v = s.r[o[0]] if st else None
                if pre: W(q[0], a); cur = s.region(s.spv(), 0)
                if pre and q[0] == 'sp' and st and cur is not None: cur.limit = min(cur.limit, s.spv())
                if st: s.st(a, n, v)
                else: v = s.ld(a, n)
                if post is not None: W(q[0], b + post)
                if not st:
                    if n == 8: s.r[o[0]] = v
                    else: W(o[0], v)
            return f
        if mn == 'mov': v = val(o[1]); return lambda: W(o[0], v())
        if mn in ('add', 'sub', 'bic', 'and', 'orr') and len(o) == 3:
            v = val(o[2]); fn = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'bic': lambda a, b: a & ~b, 'and': lambda a, b: a & b, 'orr': lambda a, b: a | b}[mn]
            return lambda: W(o[0], fn(R(o[1]), v()))
        if mn == 'adr': t = num(o[1]); return lambda: W(o[0], pc + 8 + t)
        if mn in ('bx',): return lambda: W('pc', R(o[0]))
        if mn in ('b', 'bl'):
            t = num(o[0])
            def f():
                if mn == 'bl': s.r['lr'] = pc + 4
                s.npc = t
            return f
        if mn == 'blx':
            def f(): t = R(o[0]); s.r['lr'] = pc + 4; s.npc = t & ~1
            return f
        if mn == 'nop': return lambda: None
        if mn == 'mrc' and o[0] == 'p15' and o[3:5] == ['c13', 'c0'] and s.block: return lambda: W(o[2], s.tib.lo | s.tls_bits())
class ArmMacho(Arm):
    def tls_bits(s): return s.m.R.getrandbits(2)            # the number of the processor
    file = 'arm_aapcs_macho_gas.S'; block = 128; fields = (72,); convert = staticmethod(macho('@')); call_align = 4; min_frame = 32
class ArmArmasm(Arm):
    file = 'arm_aapcs_pe_armasm.asm'; block = 0x1000; fields = (4, 8, 0xe0c); convert = staticmethod(armasm)
    def entry_check(s, m, c, what):
        lo = c.top - c.size
        for o, v, n in ((4, c.top, 'stack base'), (8, lo, 'stack limit'), (0xe0c, lo, 'deallocation stack')):
            if s.field(o) != v: raise Fail('thread-block', f'{what}: the {n} is {s.field(o):#x} instead of {v:#x}')
class ArmSoft(Arm):
    triple, asmflags, fsaved = 'armv5te-linux-gnueabi', ['-mfloat-abi=soft'], []

# -------------------------------------------------------------------------------------------------------------- RISC-V, LoongArch
class RiscV(Risc):
    triple, file, sp, ra, zero = 'riscv64-linux-gnu', 'riscv64_sysv_elf_gas.S', 'sp', 'ra', 'zero'
    asmflags = ['-march=rv64gc', '-mabi=lp64d']; dumpflags = ['--mattr=+c,+d']
    gprs = ['ra', 'sp', 'gp', 'tp'] + [f't{i}' for i in range(7)] + [f's{i}' for i in range(12)] + [f'a{i}' for i in range(8)]; fprs = [f'fs{i}' for i in range(12)] + [f'ft{i}' for i in range(12)] + [f'fa{i}' for i in range(8)]
    consts = ('gp', 'tp'); saved = [f's{i}' for i in range(12)]; fsaved = [f'fs{i}' for i in range(12)]; args = [f'a{i}' for i in range(8)]; rets = ['a0', 'a1']; other = ['fcsr']
    def decode(s, mn, op, pc):
        o = s.operands(op); g = lambda k: s.g('s0' if k == 'fp' else k); p = lambda k, v: s.p('s0' if k == 'fp' else k, v)
        if mn in ('sd', 'ld', 'fsd', 'fld'):
            mm = re.match(r'^(-?\w+)\((\w+)\)$', o[1]); off, b = num(mm[1]), mm[2]
            if mn == 'sd': return lambda: s.st(g(b) + off, 8, g(o[0]))
            if mn == 'ld': return lambda: p(o[0], s.ld(g(b) + off, 8))
            if mn == 'fsd': return lambda: s.st(g(b) + off, 8, s.r[o[0]])
            def f(): s.r[o[0]] = s.ld(g(b) + off, 8)
            return f
        if mn == 'mv': return lambda: p(o[0], g(o[1]))
        if mn == 'li': return lambda: p(o[0], num(o[1]))
        if mn in ('addi', 'andi', 'ori', 'xori'): v = num(o[2]); fn = {'addi': lambda a: a + v, 'andi': lambda a: a & v, 'ori': lambda a: a | v, 'xori': lambda a: a ^ v}[mn]; return lambda: p(o[0], fn(g(o[1])))
        if mn in ('add', 'sub', 'and', 'or'): fn = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b}[mn]; return lambda: p(o[0], fn(g(o[1]), g(o[2])))
        if mn == 'auipc': v = num(o[1]); return lambda: p(o[0], pc + sx(v << 12, 32))
        if mn == 'lui': v = num(o[1]); return lambda: p(o[0], sx(v << 12, 32))
        def go(v): s.npc = v & s.mask
        if mn in ('jr', 'jalr') and len(o) == 1:
            mm = re.match(r'^(?:(-?\w+)\()?(\w+)\)?$', o[0]); off = num(mm[1]) if mm[1] else 0; r = mm[2]
            def f():
                t = g(r) + off
                if mn == 'jalr': p('ra', s.nexta.get(pc, pc + 4))
                go(t)
            return f
        if mn == 'ret': return lambda: go(g('ra'))
        if mn in ('j', 'jal', 'tail', 'call') and len(o) == 1:
            t = num(o[0])
            def f():
                if mn in ('jal', 'call'): p('ra', s.nexta.get(pc, pc + 4))
                go(t)
            return f
        if mn in ('beqz', 'bnez'): t = num(o[1]); return lambda: go(t) if (g(o[0]) == 0) == (mn == 'beqz') else None
        if mn == 'nop': return lambda: None
    def step(s): super().step(); s.r['zero'] = 0

class LoongArch(Risc):
    triple, file, sp, ra, zero = 'loongarch64-linux-gnu', 'loongarch64_sysv_elf_gas.S', '$sp', '$ra', '$zero'
    asmflags = ['-mabi=lp64d']; dumpflags = ['--mattr=+d']
    gprs = ['$ra', '$tp', '$sp', '$fp', '$r21'] + [f'$t{i}' for i in range(9)] + [f'$s{i}' for i in range(9)] + [f'$a{i}' for i in range(8)]; fprs = [f'$fs{i}' for i in range(8)] + [f'$ft{i}' for i in range(16)] + [f'$fa{i}' for i in range(8)]
    consts = ('$tp', '$r21'); saved = ['$fp'] + [f'$s{i}' for i in range(9)]; fsaved = [f'$fs{i}' for i in range(8)]; args = [f'$a{i}' for i in range(8)]; rets = ['$a0', '$a1']; other = ['fcsr']
    def decode(s, mn, op, pc):
        o = s.operands(op); g, p = s.g, s.p
        if mn in ('st.d', 'ld.d', 'fst.d', 'fld.d', 'stptr.d', 'ldptr.d'):
            b, off = o[1], num(o[2])
            if mn in ('st.d', 'stptr.d'): return lambda: s.st(g(b) + off, 8, g(o[0]))
            if mn in ('ld.d', 'ldptr.d'): return lambda: p(o[0], s.ld(g(b) + off, 8))
            if mn == 'fst.d': return lambda: s.st(g(b) + off, 8, s.r[o[0]])
            def f(): s.r[o[0]] = s.ld(g(b) + off, 8)
            return f
        if mn == 'move': return lambda: p(o[0], g(o[1]))
        if mn == 'addi.d': v = num(o[2]); return lambda: p(o[0], g(o[1]) + v)
        if mn == 'ori': v = num(o[2]); return lambda: p(o[0], g(o[1]) | v)
        if mn == 'andi': v = num(o[2]); return lambda: p(o[0], g(o[1]) & v)
        if mn in ('or', 'and', 'add.d', 'sub.d'): fn = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'add.d': lambda a, b: a + b, 'sub.d': lambda a, b: a - b}[mn]; return lambda: p(o[0], fn(g(o[1]), g(o[2])))
        if mn == 'bstrins.d':
            hi, lo = num(o[2]), num(o[3]); mk = ((1 << (hi - lo + 1)) - 1) << lo
            return lambda: p(o[0], (g(o[0]) & ~mk) | ((g(o[1]) << lo) & mk))
        if mn == 'pcalau12i': v = num(o[1]); return lambda: p(o[0], (pc + (sx(v, 20) << 12)) & ~0xfff)
        if mn == 'pcaddi': v = num(o[1]); return lambda: p(o[0], pc + (sx(v, 20) << 2))
        def go(v): s.npc = v & s.mask
        if mn == 'jr': return lambda: go(g(o[0]))
        if mn == 'ret': return lambda: go(g('$ra'))
        if mn == 'jirl':
            def f(): t = g(o[1]) + num(o[2]); p(o[0], pc + 4); go(t)
            return f
        if mn in ('b', 'bl'):
            t = pc + num(o[0]) 
            def f():
                if mn == 'bl': p('$ra', pc + 4)
                go(t)
            return f
        if mn == 'nop': return lambda: None

# -------------------------------------------------------------------------------------------------------------- MIPS (branch delay slots)
NAMES = ['$zero', '$at', '$2', '$3'] + [f'${i}' for i in range(4, 28)] + ['$gp', '$sp', '$fp', '$ra']
class Mips(Risc):
    sp, ra, zero, gprs = '$sp', '$ra', '$zero', [n for n in NAMES if n != '$zero']
    fprs = [f'$f{i}' for i in range(32)]; args = [f'${i}' for i in range(4, 12)]; rets = ['$2', '$3']; consts = ('$gp',)
    pend = None
    def fixed(s, m): s.gp = s.find_gp(); s.r['$gp'] = s.gp; s.pend = None
    def find_gp(s): return s.sym.get('_gp', 0)
    def scramble(s, m): super().scramble(m); s.r['$gp'] = s.gp_of(m)
    def gp_of(s, m): return s.gp
    def set_call(s, m, fn, args, ra): super().set_call(m, fn, args, ra); s.r['$25'] = s.sym[fn]
    def step(s):
        d = s.pend; s.pend = None; at = s.pc; super().step()
        if d is not None: s.pc = d
    def nm(s, k): return {'$v0': '$2', '$v1': '$3', '$0': '$zero', '$1': '$at', '$28': '$gp', '$29': '$sp', '$30': '$fp', '$31': '$ra', '$s8': '$fp'}.get(k, k)
    def decode(s, mn, op, pc):
        o = [s.nm(x) for x in s.operands(op)]; g, p = s.g, s.p; w = s.bits // 8
        def S(v): return sx(v, 32) & M64 if s.bits == 64 else v
        if mn in ('sd', 'ld', 'sw', 'lw', 'sdc1', 'ldc1', 'swc1', 'lwc1'):
            mm = re.match(r'^(-?\w+)\((\$\w+)\)$', o[1]); off, b = num(mm[1]), s.nm(mm[2])
            if mn in ('sd', 'sw'): n = 8 if mn == 'sd' else 4; return lambda: s.st(g(b) + off, n, g(o[0]))
            if mn == 'ld': return lambda: p(o[0], s.ld(g(b) + off, 8))
            if mn == 'lw': return lambda: p(o[0], S(s.ld(g(b) + off, 4)))
            if mn == 'sdc1': return lambda: s.st(g(b) + off, 8, s.fget(o[0]))
            if mn == 'ldc1': return lambda: s.fput(o[0], s.ld(g(b) + off, 8))
            return None
        if mn == 'move': return lambda: p(o[0], g(o[1]))
        if mn in ('addiu', 'daddiu'): v = num(o[-1]); a = o[1] if len(o) == 3 else o[0]; return (lambda: p(o[0], S(g(a) + v))) if mn == 'addiu' else (lambda: p(o[0], g(a) + v))
        if mn in ('and', 'or', 'addu', 'daddu', 'subu', 'dsubu') and len(o) >= 2:
            a, b = (o[1], o[2]) if len(o) == 3 else (o[0], o[1]); fn = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'addu': lambda x, y: S(x + y), 'daddu': lambda x, y: x + y, 'subu': lambda x, y: S(x - y), 'dsubu': lambda x, y: x - y}[mn]
            return lambda: p(o[0], fn(g(a), g(b)))
        if mn in ('andi', 'ori'): v = num(o[2]); return lambda: p(o[0], g(o[1]) & v if mn == 'andi' else g(o[1]) | v)
        if mn == 'li': v = num(o[1]); return lambda: p(o[0], v)
        if mn == 'lui': v = num(o[1]); return lambda: p(o[0], S((v & 0xffff) << 16))
        if mn == 'nop': return lambda: None
        def go(v): s.pend = v & s.mask
        if mn in ('jr', 'jalr'):
            def f():
                t = g(o[-1])
                if mn == 'jalr': p('$ra', pc + 8)
                go(t)
            return f
        if mn in ('b', 'j', 'bal', 'jal') and len(o) == 1:
            t = num(o[0])
            def f():
                if mn in ('bal', 'jal'): p('$ra', pc + 8)
                go(t)
            return f
    def fget(s, k): return s.r[k]
    def fput(s, k, v): s.r[k] = v
    def spok(s): return True
class Mips64(Mips):
    triple, file, asmflags, ldflags = 'mips64el-linux-gnuabi64', 'mips64_n64_elf_gas.S', ['-mhard-float', '-mabi=64', '-fPIC'], []
    saved = [f'${i}' for i in range(16, 24)] + ['$gp', '$fp']; fsaved = [f'$f{i}' for i in range(24, 32)]
class Mips64be(Mips64): triple, big = 'mips64-linux-gnuabi64', True
class Mips32(Mips):
    triple, file, asmflags, bits = 'mipsel-linux-gnu', 'mips32_o32_elf_gas.S', ['-mhard-float', '-fPIC'], 32
    saved = [f'${i}' for i in range(16, 24)] + ['$fp']; fsaved = [f'$f{i}' for i in range(20, 32, 2)]; args = ['$4', '$5', '$6', '$7']; hidden = True; call_align = 8; frame_up = 16; min_frame = 32; hidden_off = 24
    fprs = [f'$f{i}' for i in range(0, 32, 2)]
    def up_ranges(s, sp): return [(sp, sp + 16)]
    def args_transfer(s, m):
        if m.cur.state == 'fresh': return s.arg(0), s.arg(1)
        return s.arg(1), s.arg(2)
class Mips32be(Mips32): triple, big = 'mips-linux-gnu', True

# -------------------------------------------------------------------------------------------------------------- PowerPC
def xcoff(bits):
    """the syntax of AIX: control sections become sections, descriptors are built by hand"""
    def f(t):
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S); name = re.search(r'\.globl\s+(\w+)\[DS\]', t)[1]; w = '.quad' if bits == 64 else '.long'
        out = [l for l in t.splitlines() if not re.match(r'\s*\.(toc|csect|globl|llong|long|file|align)\b', l) and l.strip() != name + ':']
        return (f'.section ".{"opd" if bits == 64 else "data"}","aw"\n.globl {name}\n.align {3 if bits == 64 else 2}\n{name}:\n{w} .{name}\n{w} {".TOC.@tocbase" if bits == 64 else "0x5000"}\n{w} 0\n.text\n.align 2\n' + '\n'.join(out)).replace('._exit', '_exit') + '\n'
    return f
class Ppc(Risc):
    sp = 'r1'; ra = 'lr'; fprs = [f'f{i}' for i in range(32)]; gprs = [f'r{i}' for i in range(32)]; other = ['cr', 'ctr', 'lr', 'fpscr']; args = [f'r{i}' for i in range(3, 11)]; rets = ['r3', 'r4']
    def up_ranges(s, sp): return [(sp + 2 * s.bits // 8, sp + 3 * s.bits // 8), (sp + s.bits // 8, sp + 2 * s.bits // 8)] if s.bits == 64 else [(sp + 4, sp + 8)]
    frame_up = 1
    CR = 0xfff000                             # cr2, cr3, cr4
    def callee_saved(s): d = super().callee_saved(); d['cr2-4'] = s.r['cr'] & 0x00fff000; return d
    def new_frame(s, m, c, new, old): n = s.bits // 8; s.st_raw(new, n, old)
    def st_raw(s, a, n, v): r = s.region(a, n); r.b[a - r.lo:a - r.lo + n] = v.to_bytes(n, 'big' if s.big else 'little')
    def frame_exempt(s, sp): return []
    def return_transfer(s, m, v, rec):
        cr = s.r['cr']; super().return_transfer(m, v, rec); s.r['cr'] = (s.r['cr'] & ~0x00fff000 & 0xffffffff) | (cr & 0x00fff000)
    def leave_entry(s, m, c):
        super().leave_entry(m, c); s.r.pop('cr2-4', None)
    def decode(s, mn, op, pc):
        o = s.operands(op); W = s.bits // 8; r = lambda k: s.r['r' + k]
        def put(k, v): s.r['r' + k] = v & s.mask
        def base(k): return 0 if k == '0' else r(k)
        if mn in ('std', 'ld', 'stw', 'lwz', 'stdu', 'stwu', 'stfd', 'lfd'):
            mm = re.match(r'^(-?\w+)\((\d+)\)$', o[1]); off, b = num(mm[1]), mm[2]; n = 8 if 'd' in mn and mn not in ('stw', 'lwz', 'stwu') else 4
            if mn in ('std', 'stw'): return lambda: s.st(base(b) + off, n, r(o[0]))
            if mn in ('ld', 'lwz'): return lambda: put(o[0], s.ld(base(b) + off, n))
            if mn in ('stdu', 'stwu'):
                def f():
                    a = (base(b) + off) & s.mask; v = r(o[0])
                    if b == '1': cur = s.region(s.spv(), 0); cur.limit = min(cur.limit, a - s.redzone) if cur is not None else 0
                    s.st(a, n, v); put(b, a)
                return f
            if mn == 'stfd': return lambda: s.st(base(b) + off, 8, s.r['f' + o[0]])
            def f(): s.r['f' + o[0]] = s.ld(base(b) + off, 8)
            return f
        if mn == 'mr': return lambda: put(o[0], r(o[1]))
        if mn in ('addi', 'addis', 'subi'):
            if mn == 'addi' and o[1] == '0': pass
            v = sx(num(o[2]), 16) << (16 if mn == 'addis' else 0); v = -v if mn == 'subi' else v; return lambda: put(o[0], base(o[1]) + v)
        if mn == 'li': v = sx(num(o[1]), 16); return lambda: put(o[0], v)
        if mn == 'lis': v = sx(num(o[1]), 16) << 16; return lambda: put(o[0], v)
        if mn in ('add', 'subf', 'and', 'or'): fn = {'add': lambda a, b: a + b, 'subf': lambda a, b: b - a, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b}[mn]; return lambda: put(o[0], fn(r(o[1]), r(o[2])))
        if mn == 'rldicr': sh, me = num(o[2]), num(o[3]); mk = (M64 << (63 - me)) & M64; return lambda: put(o[0], ((r(o[1]) << sh | r(o[1]) >> (64 - sh)) & mk) if sh else r(o[1]) & mk)
        if mn in ('clrrdi', 'clrrwi'): n = num(o[2]); return lambda: put(o[0], r(o[1]) >> n << n)
        if mn == 'rlwinm':
            sh, mb, me = num(o[2]), num(o[3]), num(o[4])
            if mb > me: return None
            mk = (0xffffffff >> mb) & (0xffffffff << (31 - me)) & 0xffffffff
            def f(): v = r(o[1]) & 0xffffffff; put(o[0], ((v << sh | v >> (32 - sh)) if sh else v) & mk)
            return f
        def sp(k, v): s.r[k] = v & s.mask
        if mn == 'mflr': return lambda: put(o[0], s.r['lr'])
        if mn == 'mtlr': return lambda: sp('lr', r(o[0]))
        if mn == 'mtctr': return lambda: sp('ctr', r(o[0]))
        if mn == 'mfcr': return lambda: put(o[0], s.r['cr'] & 0xffffffff)
        if mn in ('mtcr',) or (mn == 'mtcrf' and num(o[0]) == 255): k = o[-1]; return lambda: sp('cr', r(k) & 0xffffffff)
        if mn == 'mffs':
            def f(): s.r['f' + o[0]] = 0xfff8000000000000 | (s.r['fpscr'] & 0xffffffff)
            return f
        if mn == 'mtfsf' and num(o[0]) == 255:
            def f(): s.r['fpscr'] = s.r['f' + o[1]] & 0xffffffff
            return f
        if mn == 'fmr':
            def f(): s.r['f' + o[0]] = s.r['f' + o[1]]
            return f
        def go(v, link=False):
            if link: s.r['lr'] = pc + 4
            s.npc = v & ~3 & s.mask
        if mn in ('cmpdi', 'cmpwi', 'cmpldi', 'cmplwi') and len(o) == 2:
            b = 64 if 'd' in mn else 32; sg = 'l' not in mn[3:4]; k = sx(num(o[1]), 16) if sg else num(o[1]) & 0xffff
            def f(): v = r(o[0]) & ((1 << b) - 1); v = sx(v, b) if sg else v; s.r['cr'] = s.r['cr'] & 0x0fffffff | (8 if v < k else 4 if v > k else 2) << 28
            return f
        if mn.rstrip('+-') in ('beq', 'bne') and len(o) == 1:
            t = num(o[0]); e = mn[:3] == 'beq'; return lambda: go(t) if bool(s.r['cr'] >> 29 & 1) == e else None
        if mn in ('bt', 'bf') and len(o) == 2:
            n, t2 = num(o[0]), num(o[1]); return lambda: go(t2) if bool(s.r['cr'] >> (31 - n) & 1) == (mn == 'bt') else None
        if mn == 'blr': return lambda: go(s.r['lr'])
        if mn == 'bctr': return lambda: go(s.r['ctr'])
        if mn == 'bctrl': return lambda: go(s.r['ctr'], True)
        if mn in ('b', 'bl'): t = num(o[0]); return lambda: go(t, mn == 'bl')
        if mn == 'bcl' and o[0] == '20': t = num(o[2]); return lambda: go(t, True)
        if mn in ('nop',): return lambda: None
class Ppc64(Ppc):
    triple, file, redzone = 'powerpc64le-linux-gnu', 'ppc64_sysv_elf_gas.S', 288
    saved = [f'r{i}' for i in range(14, 32) if i != 13]; fsaved = [f'f{i}' for i in range(14, 32)]; min_frame = 48; hidden_off = 32; consts = ('r13', 'r2')
    def arrival(s, at, what, function):
        if function and s.r['r12'] != at: raise Fail('control', f'{what}: the function at {at:#x} is entered with r12 = {s.r["r12"]:#x}')
    # the caller keeps the TOC pointer at 24(1) and restores it after the call
    def set_call(s, m, fn, args, ra): super().set_call(m, fn, args, ra); s.r['r12'] = s.sym[fn]
    def frame_exempt(s, sp): return [(sp + 8, sp + 24)]
class Descriptors:
    """function pointers are descriptors: entry point, TOC, environment; all functions of the program use one TOC, except those the monitor calls through a descriptor"""
    def fixed(s, m): super().fixed(m); s.segs = [g for g in s.segs if g.name != 'descriptors']; s.desc = Region(0x20000000, 4096, 'descriptors'); s.segs.append(s.desc); s.nd = 0; s.tocs = {}
    def descriptor(s, fn):
        w = s.bits // 8; o = s.nd % 160 * 3 * w; s.nd += 1; s.tocs[fn] = s.m.rnd()
        for i, v in enumerate((fn, s.tocs[fn], s.m.rnd())): s.desc.b[o + w * i:o + w * i + w] = v.to_bytes(w, 'big')
        return s.desc.lo + o
    def set_call(s, m, fn, args, ra):
        args = list(args)
        if fn == 'make_fcontext': args[2] = s.descriptor(args[2])
        if fn == 'ontop_fcontext': args[3] = s.descriptor(args[3])
        Risc.set_call(s, m, fn, args, ra); s.pc = s.ld(s.sym[fn], s.bits // 8)
    def args_transfer(s, m): return (s.arg(0), s.arg(1)) if m.cur.state == 'fresh' else (s.arg(1), s.arg(2))
    def arrival(s, at, what, function):
        if function and s.r['r2'] != s.tocs[at]: raise Fail('control', f'{what}: the function is entered with r2 = {s.r["r2"]:#x} instead of its TOC {s.tocs[at]:#x}')
        if function and s.m.cur.state != 'fresh': s.r['r2'] = s.m.cur.call.regs['r2']
    def return_transfer(s, m, v, rec): super().return_transfer(m, v, rec); s.r['r2'] = rec.regs['r2']
class Ppc64V1(Descriptors, Ppc64):
    """ELFv1"""
    triple, big, hidden, hidden_off, min_frame, consts = 'powerpc64-linux-gnu', True, True, 128, 160, ('r13',)
    saved = Ppc64.saved + ['r2']
    def object_made(s, o): b = bytearray(open(o, 'rb').read()); b[48:52] = (2).to_bytes(4, 'big'); open(o, 'wb').write(b)   # the linker refuses objects of this ABI, but links them correctly
    def up_ranges(s, sp): return [(sp + 8, sp + 24), (sp + 48, sp + 64)]
    def frame_exempt(s, sp): return [(sp + 8, sp + 24), (sp + 40, sp + 64)]
class Ppc64Xcoff(Ppc64V1): file = 'ppc64_sysv_xcoff_gas.S'; convert = staticmethod(xcoff(64))
class Ppc32(Ppc):
    triple, file, bits, big, hidden, by_reference = 'powerpc-linux-gnu', 'ppc32_sysv_elf_gas.S', 32, True, True, True
    saved = [f'r{i}' for i in range(14, 32)]; fsaved = [f'f{i}' for i in range(14, 32)]; min_frame = 48; hidden_off = 16; consts = ('r13', 'r2'); cflags = ['-O1', '-ffreestanding', '-fno-exceptions', '-fno-asynchronous-unwind-tables']; fctl = 'fpscr'; fctl_mask = 0xff; other = ['cr', 'ctr', 'lr']
    ldflags = ['--image-base=0x80000']
    tail_frame = 64
    def frame_exempt(s, sp): return [(sp + 4, sp + 8)]
    def args_transfer(s, m):                    # a structure argument is passed by reference; results of transfer_t through a hidden first argument
        p = s.arg(0) if m.cur.state == 'fresh' else s.arg(1)
        return s.ld(p, 4), s.ld(p + 4, 4)
    def extra(s, repo, work):
        d = f'{work}/ppcinc/boost/context/detail'; os.makedirs(d, exist_ok=True)
        # the header without the C library it includes
        open(d + '/fcontext.hpp', 'w').write('namespace boost { namespace context { namespace detail { typedef void* fcontext_t; struct transfer_t { fcontext_t fctx; void * data; }; }}}\n')
        s.cflags = s.cflags + ['-I' + f'{work}/ppcinc']; return [f'{repo}/src/asm/tail_ontop_ppc32_sysv.cpp']

class Ppc64Macho(Ppc64):
    file, triple, big, redzone, hidden, hidden_off, min_frame, consts = 'ppc64_sysv_macho_gas.S', 'powerpc64-linux-gnu', True, 288, True, 128, 160, ('r13', 'r2')
    @staticmethod
    def convert(t):
        t = macho(';')(t); t = re.sub(r'\blo16\(\((\w+ - \.)\) \+ 4\)', r'\1 + 4', t); return re.sub(r'\b([rf]\d+)\b', r'%\1', t)
    object_made = Ppc64V1.object_made; up_ranges = Ppc64V1.up_ranges; frame_exempt = Ppc64V1.frame_exempt
    def args_transfer(s, m): return (s.arg(0), s.arg(1)) if m.cur.state == 'fresh' else (s.arg(1), s.arg(2))
class Ppc32Xcoff(Descriptors, Ppc32):
    file, redzone, by_reference, hidden_off, min_frame, consts, tail_frame = 'ppc32_sysv_xcoff_gas.S', 220, False, 80, 112, (), 0; convert = staticmethod(xcoff(32))
    saved = Ppc32.saved + ['r2', 'r13']
    def up_ranges(s, sp): return [(sp + 4, sp + 12), (sp + 24, sp + 32)]
    def frame_exempt(s, sp): return [(sp + 4, sp + 12), (sp + 20, sp + 32)]
    def extra(s, repo, work): return []
class Ppc32Macho(Ppc32):
    file, redzone, by_reference, hidden_off, min_frame, consts = 'ppc32_sysv_macho_gas.S', 220, False, 80, 112, ('r2',)
    saved = Ppc32.saved + ['r13']
    @staticmethod
    def convert(t):
        t = macho(';')(t).replace('_ontop_fcontext_tail', 'ontop_fcontext_tail').replace('.const_data', '.section .rodata,"a"')
        t = re.sub(r'\b(lo|ha)16\(([^()]*)\)', lambda m: f'({m[2]})@{"l" if m[1] == "lo" else "ha"}', t); return re.sub(r'\b([rf]\d+)\b', r'%\1', t)
    def up_ranges(s, sp): return [(sp + 4, sp + 12), (sp + 24, sp + 32)]
    def frame_exempt(s, sp): return [(sp + 4, sp + 12), (sp + 20, sp + 32)]
    def args_transfer(s, m):                    # the tail of ontop_fcontext() is compiled here for ELF, so its call of the function on top follows that convention
        return (s.arg(0), s.arg(1)) if m.cur.state == 'fresh' else (s.ld(s.arg(1), 4), s.ld(s.arg(1) + 4, 4))
# -------------------------------------------------------------------------------------------------------------- S/390
class S390(Risc):
    triple, file, big, hidden, by_reference = 's390x-linux-gnu', 's390x_sysv_elf_gas.S', True, True, True
    sp, ra = '%r15', '%r14'; gprs = [f'%r{i}' for i in range(16)]; fprs = [f'%f{i}' for i in range(16)]; other = ['fpc']; call_align = 8; asmflags = ['-march=z10']; dumpflags = ['--mcpu=z15']
    saved = [f'%r{i}' for i in range(6, 14)]; fsaved = [f'%f{i}' for i in range(8, 16)]; args = [f'%r{i}' for i in range(2, 7)]; rets = ['%r2', '%r3']; min_frame = 192; hidden_off = 160; frame_up = 160; fctl = 'fpc'; fctl_mask = 0xf8000007; 
    def up_ranges(s, sp): return [(sp, sp + 160)]
    def args_transfer(s, m):
        p = s.arg(0) if m.cur.state == 'fresh' else s.arg(1)
        return s.ld(p, 8), s.ld(p + 8, 8)
    def init(s): s.cc = 0
    def decode(s, mn, op, pc):
        o = s.operands(op); g, p = s.g, s.p
        def mem(t):
            mm = re.match(r'^(-?\w+)(?:\(([^)]*)\))?$', t); off = num(mm[1]); rs = [x for x in (mm[2] or '').split(',') if x]; return lambda: (off + sum(g(x.strip()) for x in rs if x.strip() not in ('0', '%r0'))) & M64
        if mn in ('stg', 'std', 'stmg', 'lmg', 'ld', 'lg', 'ltg', 'stfpc', 'lfpc', 'mvghi', 'la', 'lay', 'stdy', 'ldy'):
            if mn == 'mvghi': a = mem(o[0]); v = num(o[1]); return lambda: s.st(a(), 8, v)
            if mn in ('stfpc', 'lfpc'):
                a = mem(o[0])
                if mn == 'stfpc': return lambda: s.st(a(), 4, s.r['fpc'])
                def f(): s.r['fpc'] = s.ld(a(), 4)
                return f
            a = mem(o[-1])
            if mn in ('stmg', 'lmg'):
                x, y = int(o[0][2:]), int(o[1][2:])
                if y < x: return None
                def f():
                    b = a()
                    for i in range(x, y + 1):
                        if mn == 'stmg': s.st(b + 8 * (i - x), 8, s.r[f'%r{i}'])
                        else: s.r[f'%r{i}'] = s.ld(b + 8 * (i - x), 8)
                return f
            if mn == 'stg': return lambda: s.st(a(), 8, g(o[0]))
            if mn in ('std', 'stdy'): return lambda: s.st(a(), 8, s.r[o[0]])
            if mn in ('ld', 'ldy', 'lg'):
                def f(): s.r[o[0]] = s.ld(a(), 8)
                return f
            if mn == 'ltg':
                def f(): v = s.ld(a(), 8); s.r[o[0]] = v; s.cc = 0 if v == 0 else 1 if v >> 63 else 2
                return f
            return lambda: p(o[0], a())
        if mn in ('aghi', 'agfi'): v = num(o[1]); return lambda: p(o[0], g(o[0]) + v)
        if mn in ('agr', 'sgr'): return lambda: p(o[0], g(o[0]) + g(o[1]) if mn == 'agr' else g(o[0]) - g(o[1]))
        if mn == 'lgr': return lambda: p(o[0], g(o[1]))
        if mn in ('lghi', 'lgfi'): v = num(o[1]); return lambda: p(o[0], v)
        if mn == 'nill': v = num(o[1]); return lambda: p(o[0], g(o[0]) & (~0xffff | v))
        if mn == 'ltgr':
            def f(): v = g(o[1]); p(o[0], v); s.cc = 0 if v == 0 else 1 if v >> 63 else 2
            return f
        def go(v): s.npc = v & s.mask
        if mn == 'larl': t = num(o[1]); return lambda: p(o[0], t)
        if mn == 'br': return lambda: go(g(o[0]))
        if mn == 'basr':
            def f(): t = g(o[1]); p(o[0], s.nexta.get(pc)); go(t)
            return f
        if mn in ('brasl', 'jas'):
            t = num(o[1])
            def f(): p(o[0], s.nexta.get(pc)); go(t)
            return f
        if mn in ('j', 'jg'): t = num(o[0]); return lambda: go(t)
        if mn in ('jne', 'jnz', 'jlh', 'je', 'jz', 'jge', 'jgne'):
            t = num(o[0]); ne = mn in ('jne', 'jnz', 'jlh', 'jgne')
            return lambda: go(t) if (s.cc != 0) == ne else None
        if mn in ('nop', 'nopr') or mn in ('bc', 'bcr') and o[0] == '0': return lambda: None
    def get_ra(s): return s.r['%r14']

# -------------------------------------------------------------------------------------------------------------- SPARC (register windows, delay slots)
class Sparc(Risc):
    triple, file, big = 'sparcv9-linux-gnu', 'sparc64_sysv_elf_gas.S', True
    sp = '%o6'; ra = '%o7'; bias = 2047; zero = '%g0'; consts = ('%g7', '%g6', '%g0', '%i6', '%i7')
    gprs = [f'%{c}{i}' for c in 'goli' for i in range(8)]; fprs = []; args = [f'%o{i}' for i in range(6)]; rets = ['%o0', '%o1']
    saved = [f'%{c}{i}' for c in 'li' for i in range(8)]; min_frame = 176; frame_up = 176; bias_h = 2047; hidden_off = 0
    ldflags = ['--image-base=0x100000', '-z', 'max-page-size=8192']; image = 0x200000
    def init(s): s.win = []; s.dpc = None
    def fixed(s, m): s.win = []; s.r['%g0'] = 0
    def nm(s, k): return {'%sp': '%o6', '%fp': '%i6'}.get(k, k)
    def set_sp(s, v): s.r['%o6'] = v - 2047
    def up_ranges(s, sp): return [(sp, sp + 128), (sp + 128, sp + 176)]
    def callee_saved(s): return {k: s.r[k] for k in s.saved}
    def leave_entry(s, m, c): super().leave_entry(m, c); s.dpc = None
    # the monitor's functions run in a window of their own, whose save area is theirs
    def enter_main(s, m, sp): s.set_sp(sp); s.r['%i6'] = sp + 512 - 2047 - 176; s.r['%i7'] = 0x3fffff8
    def new_frame(s, m, c, new, old):
        # the function executed "save": its caller's window may still be in the registers
        s.r['%i6'] = old - 2047; s.r['%i7'] = m.rnd(64)
    def set_call(s, m, fn, args, ra):
        for r, v in zip(s.args, args): s.r[r] = v & s.mask
        s.r['%o7'] = ra - 8; s.pc = s.sym[fn]; s.dpc = None
    def get_ra(s): return s.r['%o7'] + 8
    def flush(s):
        for w in s.win:
            a = (w['%o6'] + 2047) & M64
            for i in range(8): s.st(a + 8 * i, 8, w[f'%l{i}']); s.st(a + 64 + 8 * i, 8, w[f'%i{i}'])
        s.win = []
    def step(s):
        d = s.dpc; s.dpc = None; super().step()
        if d is not None: s.pc = d
        s.r['%g0'] = 0
    def decode(s, mn, op, pc):
        o = [s.nm(x) for x in s.operands(op)]; g = lambda k: s.g(k) if k.startswith('%') else num(k) & M64
        def p(k, v):
            if k != '%g0': s.r[k] = v & M64
        def addr(t):
            t = t.strip('[]'); mm = re.match(r'^(%\w+)\s*([+-])?\s*(%?\w+)?$', t); b = s.nm(mm[1]); x = mm[3]; sg = -1 if mm[2] == '-' else 1
            if x is None: return lambda: g(b)
            x = s.nm(x); return lambda: (g(b) + sg * sx(g(x), 64)) & M64
        if mn in ('stx', 'std'): a = addr(o[1]); return lambda: s.st(a(), 8, g(o[0]))
        if mn in ('ldx', 'ldd'): a = addr(o[0]); return lambda: p(o[1], s.ld(a(), 8))
        if mn == 'mov': return lambda: p(o[1], g(o[0]))
        if mn in ('add', 'sub', 'and', 'or', 'andn'): fn = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'andn': lambda a, b: a & ~b}[mn]; return lambda: p(o[2], fn(g(o[0]), g(o[1])))
        if mn == 'save':
            def f():
                v = (g(o[0]) + g(o[1])) & M64 if o else s.r['%o6']; w = {k: s.r[k] for k in s.saved}; w['%o6'] = s.r['%o6']; s.win.append(w)
                for i in range(8): s.r[f'%i{i}'] = s.r[f'%o{i}']
                for i in range(8): s.r[f'%l{i}'] = s.m.rnd(64); s.r[f'%o{i}'] = s.m.rnd(64)
                p(o[2] if o else '%g0', v)
                if not o: s.r['%o6'] = v
            return f
        if mn == 'restore':
            def f():
                v = (g(o[0]) + g(o[1])) & M64 if o else 0; ins = [s.r[f'%i{i}'] for i in range(8)]
                for i in range(8): s.r[f'%o{i}'] = ins[i]
                # a window still in the registers is used; otherwise it is filled from the stack
                if s.win: s.r.update(s.win.pop()); s.r['%o6'] = ins[6]
                else:
                    a = (ins[6] + 2047) & M64
                    for i in range(8): s.r[f'%l{i}'] = s.ld(a + 8 * i, 8); s.r[f'%i{i}'] = s.ld(a + 64 + 8 * i, 8)
                if o: p(o[2], v)
            return f
        if mn == 'flushw': return s.flush
        if mn == 'nop': return lambda: None
        if mn == 'rd' and o[0] == '%pc': return lambda: p(o[1], pc)
        def go(v): s.dpc = v & M64
        if mn == 'ret': return lambda: go(s.r['%i7'] + 8)
        if mn == 'retl': return lambda: go(s.r['%o7'] + 8)
        if mn in ('jmp',): a = addr(o[0]); return lambda: go(a())
        if mn in ('call', 'jmpl'):
            t = o[0]
            if mn == 'jmpl': a = addr(t); d = o[1]
            elif t.startswith('%'): a = addr(t); d = '%o7'
            else: tt = num(t); a = (lambda: (tt if tt >= s.image else pc + tt)); d = '%o7'
            def f(): v = a(); p(d, pc); go(v)
            return f
        if mn in ('ba', 'b'): t = num(o[0]); return lambda: go(t)
    def sp_any(s): return s.dpc is not None
# -------------------------------------------------------------------------------------------------------------- x86 (Windows, macOS)
def masm(t):
    """Microsoft's assembler, to the Intel syntax of clang"""
    out = ['.intel_syntax noprefix', '.text']
    for l in t.splitlines():
        l = l.split(';')[0].rstrip(); w = l.split()
        if not w or w[0].lower() in ('.386', '.xmm', '.model', '.code', 'assume', '.endprolog', 'extern', 'end', 'ifndef', 'endif') or len(w) > 1 and w[1].upper() in ('PROTO', 'PROTO,', 'ENDP'): continue
        if len(w) > 1 and w[1].upper() == 'PROC': out += ['.globl ' + w[0], w[0] + ':']; continue
        l = re.sub(r'\b([0-9][0-9a-fA-F]*)h\b', r'0x\1', l)
        l = re.sub(r'\bmov(\s+)(\w+),\s*(trampoline|finish)\b', r'mov\1\2, offset \3', l); l = re.sub(r'\blea(\s+)(r\w+),\s*(trampoline|finish)\b', r'lea\1\2, [rip+\3]', l)
        out.append(l)
    return '\n'.join(out) + '\n'
def gnupe86(t): return macho('@@')('\n'.join(l for l in gnupe(t).splitlines() if '@feat' not in l and not l.startswith('.def')))

class X86(Risc):
    sp = 'esp'; bits = 32; W = 4; frame_up = 12; min_frame = 32; call_align = 16; hidden = False; entry_push = 4; xmm = []
    gprs = ['eax', 'ebx', 'ecx', 'edx', 'esi', 'edi', 'ebp', 'esp']; saved = ['ebx', 'esi', 'edi', 'ebp']; rets = ['eax', 'edx']; other = ['mxcsr', 'fcw']; triple = 'i386-linux-gnu'; seg = None
    def init(s): s.zf = 0
    def scramble(s, m):
        super().scramble(m); s.r['mxcsr'] = m.rnd(16); s.r['fcw'] = m.rnd(12); s.zf = m.rnd(1)
        for k in s.xmm: s.r[k] = m.rnd(128)
    def reset(s, m):
        super().reset(m); s.scramble(m)
    def fixed(s, m): 
        if s.block: s.st_raw(s.tib.lo + s.self, s.tib.lo)
    def st_raw(s, a, v): r = s.region(a, s.W); r.b[a - r.lo:a - r.lo + s.W] = v.to_bytes(s.W, 'little')
    def ctl(s): return s.r['mxcsr'] << 16 | s.r['fcw']
    fctl = 'fcw'; fctl_mask = 0xfff
    def callee_saved(s):
        d = super().callee_saved(); d['mxcsr'] = s.r['mxcsr']
        return d
    def set_call(s, m, fn, args, ra):
        c = m.cur; c.r.limit = c.sp - s.W
        s.pass_args(c, args); s.st_raw(c.sp - s.W, ra); s.r[s.sp] = c.sp - s.W; s.pc = s.sym[fn]
    def pass_args(s, c, args):
        for i, v in enumerate(args): s.st_raw(c.sp + i * s.W, v & s.mask)
    def arg(s, i): return s.ld(s.spv() + s.W * (i + 1), s.W)
    def get_ra(s): return s.ld(s.spv(), s.W)
    def up_ranges(s, sp): return [(sp, sp + s.frame_up)]
    def return_transfer(s, m, v, rec): super().return_transfer(m, v, rec); s.r[s.sp] += s.W
    def entry_return(s, m, c): s.pc = c.ra
    full = {}
    def decode(s, mn, op, pc):
        o = s.operands(op); nx = s.nexta.get(pc); W = s.W
        size = 8 if mn[-1] == 'q' else 4
        def ea(t):
            mm = re.match(r'^(?:%([fg]s):)?(-?\w+)?(?:\(([^)]*)\))?$', t)
            if not mm: return None
            d = num(mm[2]) if mm[2] else 0; seg = mm[1]; q = [x.strip().lstrip('%') for x in (mm[3] or '').split(',')]; b = q[0]; ix = q[1] if len(q) > 1 else ''; sc = num(q[2]) if len(q) > 2 else 1
            if seg and (seg != s.seg or not s.block): return None
            def f():
                a = d + (s.tib.lo if seg else 0)
                if b == 'rip': a += nx
                elif b: a += s.r[b]
                if ix: a += s.r[ix] * sc
                return a & s.mask
            return f
        def reg(t):
            k = t[1:]; k = s.full.get(k, k)
            return k if k in s.r else None
        def get(t, n):
            if t[0] == '$': v = num(t[1:]) & ((1 << 8 * n) - 1); return lambda: v
            if t[0] == '%' and ':' not in t: k = reg(t); return (lambda: s.r[k] & ((1 << 8 * n) - 1)) if k else None
            a = ea(t); return (lambda: s.ld(a(), n)) if a else None
        def put(t, n):
            if t[0] == '%' and ':' not in t:
                k = reg(t)
                def f(v): s.r[k] = v & ((1 << 8 * n) - 1)
                return f if k else None
            a = ea(t); return (lambda v: s.st(a(), n, v)) if a else None
        def two(n, fn, flags):
            g1, g2, p = get(o[0], n), get(o[1], n), put(o[1], n)
            if None in (g1, g2, p): return None
            def f():
                v = fn(g2(), g1()) & ((1 << 8 * n) - 1)
                if flags: s.zf = v == 0
                p(v)
            return f
        def push(v):
            a = s.r[s.sp] - W; cur = s.region(a, 0)
            if cur is not None and cur.limit is not None: cur.limit = min(cur.limit, a - s.redzone)
            s.st(a, W, v); s.r[s.sp] = a
        base = mn[:-1] if mn[-1] in 'lq' else mn
        if mn in ('movl', 'movq', 'mov', 'movabsq'): 
            if len(o) != 2: return None
            return two(size, lambda a, b: b, False) if not (o[0].startswith('%xmm') or o[1].startswith('%xmm')) else None
        if base in ('add', 'sub', 'and', 'or', 'xor') and len(o) == 2: return two(size, {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[base], True)
        if base == 'lea':
            a, p = ea(o[0]), put(o[1], size); return (lambda: p(a())) if a and p else None
        if base in ('inc', 'dec', 'neg') and len(o) == 1:
            g, p = get(o[0], size), put(o[0], size)
            if not g or not p: return None
            fn = {'inc': lambda v: v + 1, 'dec': lambda v: v - 1, 'neg': lambda v: -v}[base]
            def f(): v = fn(g()) & ((1 << 8 * size) - 1); s.zf = v == 0; p(v)
            return f
        if base in ('test', 'cmp'):
            g1, g2 = get(o[0], size), get(o[1], size)
            if not g1 or not g2: return None
            def f(): s.zf = (g1() & g2()) == 0 if base == 'test' else g1() == g2()
            return f
        if base == 'xchg':
            g1, g2, p1, p2 = get(o[0], size), get(o[1], size), put(o[0], size), put(o[1], size)
            if None in (g1, g2, p1, p2): return None
            def f(): a, b = g1(), g2(); p1(b); p2(a)
            return f
        if mn in ('movaps', 'movups', 'movdqa', 'movdqu'):
            def side(t): return t[1:] if t.startswith('%xmm') else ea(t)
            a, b = side(o[0]), side(o[1])
            if a is None or b is None or isinstance(a, str) and a not in s.r or isinstance(b, str) and b not in s.r: return None
            def al(x):
                if mn[3:] in ('aps', 'dqa') and x % 16: raise Fail('alignment', f'16 bytes at {x:#x} accessed at {s.where()}')
                return x
            def f():
                v = s.r[a] if isinstance(a, str) else s.ld(al(a()), 16)
                if isinstance(b, str): s.r[b] = v
                else: s.st(al(b()), 16, v)
            return f
        if mn in ('stmxcsr', 'fnstcw'): a = ea(o[0]); k, n = ('mxcsr', 4) if mn[0] == 's' else ('fcw', 2); return (lambda: s.st(a(), n, s.r[k])) if a else None
        if mn in ('ldmxcsr', 'fldcw'): a = ea(o[0]); k, n = ('mxcsr', 4) if mn[0] == 'l' else ('fcw', 2); return (lambda: s.r.__setitem__(k, s.ld(a(), n))) if a else None
        def go(v): s.npc = v & s.mask
        if base == 'push': g = get(o[0], W); return (lambda: push(g())) if g else None
        if base == 'pop':
            p = put(o[0], W)
            def f(): v = s.ld(s.r[s.sp], W); s.r[s.sp] += W; p(v)
            return f if p else None
        if base == 'ret':
            n = num(o[0].lstrip('$')) if o else 0
            def f(): v = s.ld(s.r[s.sp], W); s.r[s.sp] += W + n; go(v)
            return f
        if base in ('jmp', 'call'):
            t = o[0]
            if t[0] == '*': g = get(t[1:], W)
            else: v = num(t); g = lambda: v
            if not g: return None
            def f():
                v = g()
                if base == 'call': push(nx)
                go(v)
            return f
        if mn in ('je', 'jne'):
            t = num(o[0]); return lambda: go(t) if bool(s.zf) == (mn == 'je') else None
        if base in ('nop', 'endbr32', 'endbr64', 'nopw') or mn in ('nop', 'endbr'): return lambda: None
        if mn == 'hlt': raise Fail('wild-jump', f'hlt executed at {pc:#x}')
class I386Macho(X86): file = 'i386_sysv_macho_gas.S'; convert = staticmethod(macho('@@'))
class I386Pe(X86):
    file = 'i386_ms_pe_gas.asm'; convert = staticmethod(gnupe86); block = 0x1000; fields = (0, 4, 8, 0x10, 0xe0c); self = 0x18; seg = 'fs'
    def own_state(s, m):
        super().own_state(m)
        # the chain of exception handlers of the running context
        n = m.R.randint(1, 4); at = [s.tib.lo + 0x100 + 0x40 * i + 8 * m.R.randint(0, 6) for i in range(n)]; m.R.shuffle(at); s.st_raw(s.tib.lo, at[0])
        for i, a in enumerate(at): s.last = m.rnd(32) | 1; s.st_raw(a, at[i + 1] if i + 1 < n else 0xffffffff); s.st_raw(a + 4, s.last)
    def call_made(s, m, c): c.last = s.last
    def entry_check(s, m, c, what):
        lo = c.top - c.size
        for o, v, n in ((4, c.top, 'stack base'), (8, lo, 'stack limit'), (0xe0c, lo, 'deallocation stack'), (0x10, 0, 'fiber data')):
            if s.field(o) != v: raise Fail('thread-block', f'{what}: the {n} is {s.field(o):#x} instead of {v:#x}')
        h = s.field(0)
        if s.region(h, 8) is not c.r: raise Fail('thread-block', f'{what}: the first exception record {h:#x} is not in the stack of the context')
        if s.ld(h, 4) != 0xffffffff or s.ld(h + 4, 4) != c.last: raise Fail('thread-block', f'{what}: the exception record is ({s.ld(h, 4):#x}, {s.ld(h + 4, 4):#x}) instead of the end of the chain with handler {c.last:#x}')
class I386PeClang(I386Pe): file = 'i386_ms_pe_clang_gas.S'
class I386Masm(I386Pe): file = 'i386_ms_pe_masm.asm'; convert = staticmethod(masm)
class X64Pe(X86):
    file = 'x86_64_ms_pe_gas.asm'; convert = staticmethod(gnupe86); block = 0x1600; fields = (8, 0x10, 0x20, 0x1478); self = 0x30; seg = 'gs'; triple = 'x86_64-linux-gnu'
    sp = 'rsp'; bits = 64; W = 8; frame_up = 32; min_frame = 80; hidden = True; hidden_off = 48; entry_push = 8; args = ['rcx', 'rdx', 'r8', 'r9']; rets = ['rax']
    gprs = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + [f'r{i}' for i in range(8, 16)]; saved = ['rbx', 'rbp', 'rdi', 'rsi', 'r12', 'r13', 'r14', 'r15']
    xmm = [f'xmm{i}' for i in range(16)]; full = {**{'e' + k: 'r' + k for k in ('ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp')}, **{f'r{i}d': f'r{i}' for i in range(8, 16)}}
    def callee_saved(s):
        d = super().callee_saved(); d.update({f'xmm{i}': s.r[f'xmm{i}'] for i in range(6, 16)})
        return d
    def pass_args(s, c, args):
        for k, v in zip(s.args, args): s.r[k] = v & s.mask
    def arg(s, i): return s.r[s.args[i]]
    def args_transfer(s, m): p = s.arg(0) if m.cur.state == 'fresh' else s.arg(1); return s.ld(p, 8), s.ld(p + 8, 8)
    def ret_transfer(s, m, rec):
        if s.r['rax'] != rec.hidden: raise Fail('data', f'RAX is {s.r["rax"]:#x} on return instead of the address of the result {rec.hidden:#x}')
        return super().ret_transfer(m, rec)
    entry_check = AArch64Pe.entry_check
class X64PeClang(X64Pe): file = 'x86_64_ms_pe_clang_gas.S'
class X64Masm(X64Pe): file = 'x86_64_ms_pe_masm.asm'; convert = staticmethod(masm)

ALL = dict(aarch64=AArch64, aarch64_macho=AArch64Macho, aarch64_pe=AArch64Pe, aarch64_armasm=AArch64Armasm, armv7_macho=ArmMacho, armv7_armasm=ArmArmasm, armv7=Arm, armv5=ArmSoft, riscv64=RiscV, loongarch64=LoongArch, mips64el=Mips64, mips64=Mips64be, mipsel=Mips32, mips=Mips32be, ppc64le=Ppc64, ppc64=Ppc64V1, ppc64_xcoff=Ppc64Xcoff, ppc32=Ppc32, ppc32_xcoff=Ppc32Xcoff, ppc32_macho=Ppc32Macho, ppc64_macho=Ppc64Macho, s390x=S390, sparc64=Sparc,
    i386_macho=I386Macho, i386_pe=I386Pe, i386_pe_clang=I386PeClang, i386_masm=I386Masm, x64_pe=X64Pe, x64_pe_clang=X64PeClang, x64_masm=X64Masm)
