// A shadow stack in software (Intel CET, user mode): breakpoints at all calls, returns and shadow-stack instructions of a statically
// linked program (-static -no-pie), which are emulated; keeps the shadow stack as the CPU would (call pushes, ret pops and compares) and executes rdssp, incssp, rstorssp and saveprevssp in its place.
// map_shadow_stack() and munmap() are intercepted (-Wl,--wrap). Shadow stacks are read-only for the program, as they are in hardware.
// Linked into a program, it is the oracle: a mismatch, an invalid token, an overflow or a shadow stack left behind is reported.
#include "cetemu.hpp"
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <cstdarg>
extern "C" { long __real_syscall( long, ...); int __real_munmap( void *, size_t); pid_t __real_fork(); void __real_abort() __attribute__((noreturn)); }
namespace {
typedef uint64_t u64;
#define CODE __attribute__((section("cetcode")))      // (no breakpoints in here)
struct Region { u64 lo, size, mapped; char * rw; bool used; };
enum { MAXR = 4096 };
Region R[MAXR]; int nr; Region * cur; u64 ssp; bool on;
u64 n_insn, n_call, n_ret, n_rst, n_save, n_inc, n_rd, n_map, n_unmap, n_switch_back; unsigned live, peak; int fail_in;
CODE __attribute__((noreturn)) void bad( const char * what, u64 a = 0, u64 b = 0, u64 rip = 0) {
    char s[300]; int n = snprintf( s, sizeof s, "ORACLE-FAIL shadow-stack: %s (%llx, %llx) at %llx after %llu of them\n", what, (unsigned long long) a, (unsigned long long) b, (unsigned long long) rip, (unsigned long long) n_insn);
    if ( write( 1, s, n)) {} _exit( 77); }
CODE Region * find( u64 a) { if ( cur && a >= cur->lo && a < cur->lo + cur->mapped) return cur; for ( int i = 0; i < nr; ++i) if ( R[i].used && a >= R[i].lo && a < R[i].lo + R[i].mapped) return & R[i]; return 0; }
CODE u64 * cell( u64 a, const char * w, u64 rip) { Region * r = find( a); if ( ! r || a % 8) bad( w, a, 0, rip); return (u64*)( r->rw + ( a - r->lo)); }
void * map_region( u64 size, bool token) {
    u64 mapped = ( size + 4095) & ~4095ull; if ( ! size || ( token && ( size < 8 || size % 8))) { errno = EINVAL; return MAP_FAILED; }
    if ( fail_in > 0 && 0 == --fail_in) { errno = ENOMEM; return MAP_FAILED; }
    int fd = memfd_create( "shstk", 0); if ( fd < 0 || ftruncate( fd, mapped)) _exit( 78);
    char * rw = (char*) mmap( 0, mapped, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); char * ro = (char*) mmap( 0, mapped, PROT_READ, MAP_SHARED, fd, 0); close( fd);
    if ( rw == MAP_FAILED || ro == MAP_FAILED) _exit( 78);
    int i = 0; while ( i < nr && R[i].used) ++i;
    if ( i == MAXR) _exit( 78);
    if ( i == nr) ++nr;
    Region r = { (u64) ro, size, mapped, rw, true }; R[i] = r;
    if ( token) { *(u64*)( rw + size - 8) = ( (u64) ro + size) | 1; ++n_map; if ( ++live > peak) peak = live; }
    return ro;
}
const int REGS[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
const u64 ARITH = 0x8d5;                    // CF PF AF ZF SF OF
u64 text_lo, text_size; unsigned char * text_copy;
// memory operand at ModRM byte p (of the copy); q: first byte behind it
CODE u64 operand( greg_t * g, int rex, const unsigned char * p, const unsigned char *& q) {
    int mod = * p >> 6, rm = * p & 7; u64 a; q = p + 1; int d;
    if ( rm == 4) {
        int sib = * q++, idx = ( sib >> 3 & 7) | ( rex & 2) << 2, base = ( sib & 7) | ( rex & 1) << 3;
        if ( ( sib & 7) == 5 && ! mod) { __builtin_memcpy( & d, q, 4); q += 4; a = (u64)(long) d; } else a = g[REGS[base]];
        if ( idx != 4) a += (u64) g[REGS[idx]] << ( sib >> 6);
    }
    else if ( rm == 5 && ! mod) { __builtin_memcpy( & d, q, 4); q += 4; a = (u64)( q - text_copy) + text_lo + (long) d; }
    else a = g[REGS[rm | ( rex & 1) << 3]];
    if ( mod == 1) a += (signed char) * q++;
    if ( mod == 2) { __builtin_memcpy( & d, q, 4); q += 4; a += (long) d; }
    return a;
}
CODE void on_trap( int, siginfo_t *, void * uc) {
    greg_t * g = ( (ucontext_t*) uc)->uc_mcontext.gregs; bool track = on; on = false; ++n_insn;
    u64 at = g[REG_RIP] - 1; if ( at < text_lo || at >= text_lo + text_size) bad( "int3", at);
    const unsigned char * p = text_copy + ( at - text_lo), * q = p; bool f3 = false; int rex = 0;
    for (;;) { if ( * p == 0xF3) f3 = true; else if ( * p == 0x66 || * p == 0xF2 || * p == 0x3E) ; else break; ++p; }
    if ( ( * p & 0xF0) == 0x40) rex = * p++;
#define NEXT( e) ( (u64)( (e) - text_copy) + text_lo)
    if ( * p == 0xE8 || ( * p == 0xFF && ( p[1] >> 3 & 7) == 2)) {
        u64 to;
        if ( * p == 0xE8) { int d; __builtin_memcpy( & d, p + 1, 4); q = p + 5; to = NEXT( q) + (long) d; }
        else if ( p[1] >> 6 == 3) { to = g[REGS[( p[1] & 7) | ( rex & 1) << 3]]; q = p + 2; }
        else to = *(u64*) operand( g, rex, p + 1, q);
        u64 ret = NEXT( q); g[REG_RSP] -= 8; *(u64*) g[REG_RSP] = ret; g[REG_RIP] = to;
        if ( track && to >= text_lo && to < text_lo + text_size) {                              // (others: vdso, .fini)
            ++n_call; u64 a = ssp - 8; if ( a < cur->lo) bad( "shadow stack overflow", a, cur->lo, at);
            *(u64*)( cur->rw + ( a - cur->lo)) = ret; ssp = a;
        }
    } else if ( * p == 0xC3 || * p == 0xC2) {
        u64 to = *(u64*) g[REG_RSP]; g[REG_RSP] += 8 + ( * p == 0xC2 ? p[1] | p[2] << 8 : 0); g[REG_RIP] = to;
        if ( track && ! ( cur == & R[0] && ssp == cur->lo + cur->size)) {                       // (frames older than the emulation)
            if ( ssp + 8 > cur->lo + cur->size) bad( "return beyond the top of the shadow stack", ssp, cur->lo + cur->size, at);
            u64 v = *(u64*)( cur->rw + ( ssp - cur->lo));
            if ( v != to) bad( "return address differs from that of the shadow stack", to, v, at);
            ssp += 8; ++n_ret;
        }
    } else if ( ! f3 || * p != 0x0F) bad( "int3", at);
    else if ( p[1] == 0x1E && p[2] >> 3 == 031) { if ( track) { g[REGS[( p[2] & 7) | ( rex & 1) << 3]] = ssp; ++n_rd; } g[REG_RIP] = NEXT( p + 3); }                   // rdssp
    else if ( p[1] == 0xAE && p[2] >> 3 == 035) {                                                                               // incssp
        u64 n = ( g[REGS[( p[2] & 7) | ( rex & 1) << 3]] & 0xff) * ( rex & 8 ? 8 : 4); g[REG_RIP] = NEXT( p + 3);
        if ( track) { if ( ssp + n > cur->lo + cur->size) bad( "incssp beyond the top of the shadow stack", ssp, n, at);
            ssp += n; ++n_inc; }
    } else if ( p[1] == 0x01 && p[2] == 0xEA) {                                                                                   // saveprevssp
        u64 t = * cell( ssp, "saveprevssp: no shadow stack", at);
        if ( ( t & 3) != 3) bad( "saveprevssp: no previous-ssp token", ssp, t, at);
        ssp += 8; u64 old = t & ~3ull, a = ( old & ~7ull) - 8;
        * cell( a, "saveprevssp: no room for the restore token", at) = old | 1; ++n_save; g[REG_RIP] = NEXT( p + 3);
    } else if ( p[1] == 0x01 && ( p[2] >> 3 & 7) == 5 && p[2] >> 6 != 3) {                                                          // rstorssp m64
        u64 a = operand( g, rex, p + 2, q); u64 * c = cell( a, "rstorssp: operand is on no shadow stack", at), t = * c;
        if ( ( t & 3) != 1 || ( ( ( t & ~1ull) - 8) & ~7ull) != a) bad( "rstorssp: no valid restore token", a, t, at);
        * c = ssp | 3; cur = find( a); ssp = a; ++n_rst; g[REG_EFL] = ( g[REG_EFL] & ~ARITH) | ( t & 4 ? 1 : 0); g[REG_RIP] = NEXT( q);
    } else bad( "int3", at);
    on = track;
}
void report() {
    if ( ! on) return;
    on = false;
    for ( int i = 1; i < nr; ++i) if ( R[i].used) { if ( cet_regions_may_stay()) break; bad( "a shadow stack was left behind", R[i].lo, R[i].size); }
    printf( "STAT cet_instructions %llu\nSTAT cet_calls %llu\nSTAT cet_returns %llu\nSTAT cet_stack_switches %llu\nSTAT cet_tokens_saved %llu\nSTAT cet_pops %llu\nSTAT cet_stacks_mapped %llu\nSTAT cet_stacks_unmapped %llu\n",
        (unsigned long long) n_insn, (unsigned long long) n_call, (unsigned long long) n_ret, (unsigned long long) n_rst, (unsigned long long) n_save, (unsigned long long) n_inc, (unsigned long long) n_map, (unsigned long long) n_unmap); fflush( stdout);
}
extern "C" char __executable_start, __etext;
// every call, return and shadow-stack instruction of .text, as found by the disassembler, becomes a breakpoint
__attribute__((constructor)) void start() {
    static char exe[4096], cmd[9000]; ssize_t l = readlink( "/proc/self/exe", exe, sizeof exe - 20); if ( l <= 0) _exit( 78);
    exe[l] = 0; snprintf( cmd, sizeof cmd, "objdump -w -d -j .text '%s' | sed -nE 's/^ *([0-9a-f]+):.*\t([a-z0-9]+ )*(call|callq|ret|retq|rdssp[dq]|incssp[dq]|rstorssp|saveprevssp)( .*)?$/\\1 \\3\\4/p'", exe);
    FILE * f = popen( cmd, "r"); if ( ! f) _exit( 78);
    static u64 at[400000]; static char line[400]; size_t n = 0; bool fs = false;
    while ( fgets( line, sizeof line, f)) { if ( n == sizeof at / sizeof * at) _exit( 78); at[n++] = strtoull( line, 0, 16); if ( strstr( line, "%fs:")) fs = true; }
    pclose( f); if ( n < 100 || fs) { fprintf( stderr, "cetemu: cannot use this program (%zu)\n", n); _exit( 78); }
    text_lo = at[0] & ~4095ull; text_size = ( ( at[n - 1] + 4096) & ~4095ull) - text_lo;
    text_copy = (unsigned char*) mmap( 0, text_size + 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy( text_copy, (void*) text_lo, text_size);
    static char alt[262144]; stack_t ss; memset( & ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack( & ss, 0);
    struct sigaction sa; memset( & sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction( SIGTRAP, & sa, 0);
    u64 size = 8u << 20; map_region( size, false); cur = & R[0]; ssp = cur->lo + size; atexit( report);
    if ( mprotect( (void*) text_lo, text_size, PROT_READ | PROT_WRITE | PROT_EXEC)) _exit( 78);
    for ( size_t i = 0; i < n; ++i) *(unsigned char*) at[i] = 0xCC;
    on = true;
}
}
extern "C" {
// the shadow stacks of a child process are its own
pid_t __wrap_fork() {
    if ( ! on) return __real_fork();
    on = false; static int fds[MAXR];
    for ( int i = 0; i < nr; ++i) if ( R[i].used) { fds[i] = memfd_create( "shstk", 0); if ( fds[i] < 0 || ftruncate( fds[i], R[i].mapped)) _exit( 78);
        u64 from = i ? 0 : ( cur == & R[0] ? ssp - R[0].lo : 0) & ~4095ull; for ( u64 o = from; o < R[i].mapped; ) { ssize_t n = pwrite( fds[i], R[i].rw + o, R[i].mapped - o, o); if ( n <= 0) _exit( 78); o += n; } }
    pid_t r = __real_fork();
    for ( int i = 0; i < nr; ++i) if ( R[i].used) {
        if ( ! r) { if ( mmap( (void*) R[i].lo, R[i].mapped, PROT_READ, MAP_SHARED | MAP_FIXED, fds[i], 0) == MAP_FAILED || mmap( R[i].rw, R[i].mapped, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fds[i], 0) == MAP_FAILED) _exit( 78); }
        close( fds[i]); }
    on = true; return r;
}
// (blocks all signals)
void __wrap_abort() { on = false; if ( text_copy) memcpy( (void*) text_lo, text_copy, text_size); __real_abort(); }
__attribute__((weak)) int cet_regions_may_stay() { return 0; }
void cet_report() { report(); }
void cet_fail_map( int n) { fail_in = n; }
unsigned long cet_ssp() { return ssp; }
unsigned cet_live() { return live; }
long __wrap_syscall( long nr_, ...) {
    va_list ap; va_start( ap, nr_); long a[6]; for ( int i = 0; i < 6; ++i) a[i] = va_arg( ap, long); va_end( ap);
    if ( nr_ != 453) return __real_syscall( nr_, a[0], a[1], a[2], a[3], a[4], a[5]);
    if ( a[0] || ( a[2] & ~3l)) { errno = EINVAL; return -1; }
    return (long) map_region( a[1], a[2] & 1);
}
int __wrap_munmap( void * p, size_t n) {
    for ( int i = 1; i < nr; ++i) if ( R[i].used && (u64) p < R[i].lo + R[i].mapped && (u64) p + n > R[i].lo) {
        if ( (u64) p != R[i].lo || ( ( n + 4095) & ~4095ull) != R[i].mapped) bad( "shadow stack unmapped in parts", (u64) p, n);
        if ( cur == & R[i]) bad( "the shadow stack in use is unmapped", (u64) p, n);
        __real_munmap( R[i].rw, R[i].mapped); R[i].used = false; ++n_unmap; --live; break;
    }
    return __real_munmap( p, n);
}
}
