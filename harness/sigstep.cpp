// Every instruction of a random context program is interrupted by a signal handler that runs on the interrupted stack (C16).
// The trap flag makes the processor raise SIGTRAP after each instruction. The handler
//   - checks that the interrupted stack pointer lies in a live stack,
//   - overwrites everything below the red zone of the interrupted stack (down to its end in turn),
//   - overwrites what lies below the last stack pointer seen in the stack that was left by a switch,
//   - clobbers all registers, or runs a context of its own (fcontext builds).
// The observable log of the program has to be that of the same program without signals.
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#ifndef BOOST_USE_UCONTEXT
#include <boost/context/detail/fcontext.hpp>
#endif
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <pthread.h>
#include <memory>
#include <vector>
namespace ctx = boost::context;
enum { NST = 24, SZ = 64 * 1024 };
struct Stack { char * lo, * hi; bool live; char * last; };
static Stack S[NST + 1];                    // S[NST] is the main stack
static volatile int cur_idx = NST;
static volatile bool stop_stepping = false;
static unsigned long long steps, handler_runs, left_scribbles, full_scribbles, nested_runs;
static unsigned mode_full;                  // scribble down to the end of the stack every n-th step
static bool own_contexts, on_alt;            // on_alt: the handler runs elsewhere and overwrites every byte below the red zone by itself
enum { TAB = 1 << 16 };
static uintptr_t rips[TAB]; static unsigned n_rips, n_asm_rips;
#ifndef BOOST_USE_UCONTEXT
extern "C" { extern char sym_jump[] __asm__( "jump_fcontext") __attribute__((weak)); extern char sym_ontop[] __asm__( "ontop_fcontext") __attribute__((weak)); extern char sym_make[] __asm__( "make_fcontext") __attribute__((weak)); }
#endif
static NOINLINE void note( uintptr_t ip) {
    size_t i = ( ip * 0x9E3779B97F4A7C15ull) >> 48;
    while ( rips[i]) { if ( rips[i] == ip) return; i = ( i + 1) & ( TAB - 1); }
    if ( n_rips > TAB / 2) return;
    rips[i] = ip; ++n_rips;
#ifndef BOOST_USE_UCONTEXT
    uintptr_t a[3] = { (uintptr_t) sym_jump, (uintptr_t) sym_ontop, (uintptr_t) sym_make };
    for ( int k = 0; k < 3; ++k) if ( a[k] && ip >= a[k] && ip < a[k] + 0xA0) { ++n_asm_rips; break; }
#endif
}
static void fill( char * from, char * to) {           // [from, to), nothing else is written
    if ( to <= from) return;
    size_t n = (size_t)( to - from);
    __asm__ __volatile__( "cld; rep stosb" : "+D"( from), "+c"( n) : "a"( 0xA5) : "memory");
}
static NOINLINE void clobber() {
    static const uint32_t weird_mx = 0x1F80 | 0xE040;
    static const uint16_t weird_cw = 0x0C7F;
    __asm__ __volatile__( "ldmxcsr %0; fldcw %1; movq $-1,%%rax; movq %%rax,%%rcx; movq %%rax,%%rdx; movq %%rax,%%rsi; movq %%rax,%%rdi; movq %%rax,%%r8; movq %%rax,%%r9; movq %%rax,%%r10; movq %%rax,%%r11;"
        "movq %%rax,%%r12; movq %%rax,%%r13; movq %%rax,%%r14; movq %%rax,%%r15; movq %%rax,%%rbx; pcmpeqd %%xmm0,%%xmm0; movdqa %%xmm0,%%xmm7; movdqa %%xmm0,%%xmm15; fldpi; fstp %%st(0)"
        : : "m"( weird_mx), "m"( weird_cw) : "rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "xmm0", "xmm7", "xmm15", "memory");
}
static char own_mem[32 * 1024] __attribute__((aligned(64)));
struct OwnAlloc { ctx::stack_context allocate() { ctx::stack_context s; s.size = sizeof own_mem; s.sp = own_mem + sizeof own_mem; return s; } void deallocate( ctx::stack_context &) noexcept { fill( own_mem, own_mem + sizeof own_mem); } };
static NOINLINE void run_own_context() {
#ifndef BOOST_USE_UCONTEXT
    ++nested_runs; int n = 0, * np = & n;
    auto f = [np]( Ctx && h) -> Ctx { ++* np; h = std::move( h).resume(); ++* np; return std::move( h); };
#ifdef USE_CALLCC
    Ctx c = ctx::callcc( std::allocator_arg, OwnAlloc(), f);
#else
    Ctx c{ std::allocator_arg, OwnAlloc(), f }; c = std::move( c).resume();
#endif
    c = std::move( c).resume_with( [np]( Ctx && h) -> Ctx { * np += 10; return std::move( h); });
    REQUIRE( n == 12 && ! c, "signal-own-context", "a context used by the handler itself went wrong (%d)", n);
#endif
}
static NOINLINE int find( char * sp) {
    for ( int i = 0; i <= NST; ++i) if ( S[i].live && sp > S[i].lo && sp <= S[i].hi) return i;
    return -1;
}
static void on_trap( int, siginfo_t *, void * v) {
    ucontext_t * uc = (ucontext_t*) v;
    char * sp = (char*) uc->uc_mcontext.gregs[REG_RSP];
    ++steps;
    if ( stop_stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
    int k = find( sp);
    REQUIRE( k >= 0, "signal-stack", "at %llx the stack pointer %p is in no live stack", (unsigned long long) uc->uc_mcontext.gregs[REG_RIP], (void*) sp);
    note( (uintptr_t) uc->uc_mcontext.gregs[REG_RIP]);
    bool full = mode_full && steps % mode_full == 0;
    if ( on_alt) {
        char * low = full ? ( k == NST ? sp - 48 * 1024 : S[k].lo + 64) : sp - 2000; if ( low < S[k].lo + 64) low = S[k].lo + 64;
        fill( low, sp - 128);
    } else {
        // the kernel has put its frame on the interrupted stack, this function runs below it
        char * here = (char*) __builtin_frame_address( 0);
        REQUIRE( here < sp && here > S[k].lo, "signal-stack", "handler does not run on the interrupted stack");
        char * low = full ? S[k].lo + 64 : here - 6000; if ( low < S[k].lo + 64) low = S[k].lo + 64;
        if ( k == NST && full) low = here - 48 * 1024;
        char * top; __asm__ __volatile__( "movq %%rsp, %0" : "=r"( top));
        fill( low, top - 1024);
    }
    if ( full) ++full_scribbles;
    int o = cur_idx;
    if ( o != k) {                          // a switch has just happened: nothing below the stack pointer it was left with is needed
        if ( S[o].live && S[o].last) { char * l = o == NST ? S[o].last - 16 * 1024 : S[o].lo + 64; fill( l, S[o].last - 128); ++left_scribbles; }
        cur_idx = k;
    }
    S[k].last = sp;
    if ( own_contexts && steps % 61 == 0) run_own_context();
    clobber(); ++handler_runs;
}
static NOINLINE void begin() { stop_stepping = false; cur_idx = NST; __asm__ __volatile__( "sub $256,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; add $256,%%rsp" ::: "memory", "cc"); }
static NOINLINE void end() { stop_stepping = true; __asm__ __volatile__( "nop; nop; nop" ::: "memory"); }

struct Alloc {
    int * id;
    ctx::stack_context allocate() {
        for ( int i = 0; i < NST; ++i) if ( ! S[i].live) {
            if ( mprotect( S[i].lo, SZ, PROT_READ | PROT_WRITE)) _exit( 78);
            S[i].last = 0; S[i].live = true; * id = i; ctx::stack_context s; s.size = SZ; s.sp = S[i].hi; return s; }
        throw std::bad_alloc();
    }
    void deallocate( ctx::stack_context & s) noexcept {
        for ( int i = 0; i < NST; ++i) if ( S[i].hi == s.sp) {
            REQUIRE( S[i].live, "release", "stack released twice");
            if ( mprotect( S[i].lo, SZ, PROT_NONE)) _exit( 78);     // any later use of the stack faults
            S[i].live = false; return; }
        oracle_fail( "release", "unknown stack released");
    }
};
static uint64_t H; static unsigned long long n_switch, n_ontop, n_unwind, n_exc, n_programs, n_raw;
static void log_( uint64_t v) { H = mix( H, v); }
struct Local { uint64_t v; explicit Local( uint64_t x) : v( x) {} ~Local() { log_( v); ++n_unwind; } };
struct Slot { Ctx h; int stack; bool used; };
static Slot slot[8];
static NOINLINE double fp_work( double x) { double a = x, b = x * 0.5, c = 3.25; for ( int i = 0; i < 3; ++i) { a = a * 1.0625 + b; b = b / c + a; } return a - b; }
static Ctx body( Ctx && h, uint64_t seed) {
    Rng r( seed); Local l( r.next()); uint64_t a = seed, b = seed * 3, cc = seed ^ 77; double d = (double)( seed % 1000);
    int rounds = 1 + (int) r.below( 3);
    for ( int i = 0; i < rounds; ++i) {
        log_( a); log_( b); log_( cc); d = fp_work( d); log_( (uint64_t) d);
        unsigned op = r.below( 10);
        if ( op == 0) { try { Local l2( 5); throw (uint64_t) r.next(); } catch ( uint64_t x) { log_( x); ++n_exc; } }
        try { h = std::move( h).resume(); ++n_switch; } catch ( uint64_t x) { log_( x + 1); ++n_exc; return std::move( h); }
        a += 1; b ^= a; cc *= 5;
    }
    log_( seed); return std::move( h);
}
static void put( int k, uint64_t seed) {
    Alloc al = { & slot[k].stack }; auto f = [seed]( Ctx && h) -> Ctx { return body( std::move( h), seed); };
#ifdef USE_CALLCC
    slot[k].h = ctx::callcc( std::allocator_arg, al, f);
#else
    slot[k].h = Ctx( std::allocator_arg, al, f);
#endif
    ++n_switch;
}
static void program( uint64_t seed, unsigned ops, bool exceptions) {
    Rng r( seed); H = seed;
    for ( unsigned i = 0; i < ops; ++i) {
        int k = (int) r.below( 8); unsigned op = r.below( 12); uint64_t v = r.next();
        if ( ! slot[k].h) { slot[k].h = Ctx(); put( k, v); continue; }
        if ( op < 6) { slot[k].h = std::move( slot[k].h).resume(); ++n_switch; }
        else if ( op < 9) { slot[k].h = std::move( slot[k].h).resume_with( [v]( Ctx && h) -> Ctx { log_( v); ++n_ontop; return std::move( h); }); ++n_switch; }
        else if ( op == 9) { if ( exceptions && r.below( 4) == 0) slot[k].h = Ctx(); }
        else if ( op == 10) { int j = (int) r.below( 8); std::swap( slot[k].h, slot[j].h); }
        log_( static_cast< bool >( slot[k].h));
    }
    // all that is left: let it finish, or unwind it
    for ( int k = 0; k < 8; ++k) { if ( exceptions && k == 3) slot[k].h = Ctx(); while ( slot[k].h) slot[k].h = std::move( slot[k].h).resume(); slot[k].h = Ctx(); }
}
#ifndef BOOST_USE_UCONTEXT
// raw fcontext: rings of contexts, functions on top
static ctx::detail::fcontext_t rawf[6];
static void raw_fn( ctx::detail::transfer_t t) {
    uint64_t a = (uintptr_t) t.data, b = a * 7, c = a ^ 99;
    for (;;) { log_( a); log_( b); log_( c); t = ctx::detail::jump_fcontext( t.fctx, (void*)( a + b)); a += (uintptr_t) t.data; b ^= a; c += 3; ++n_raw; }
}
static ctx::detail::transfer_t raw_top( ctx::detail::transfer_t t) { uint64_t v[4] = { 1, 2, 3, (uintptr_t) t.data }; for ( int i = 0; i < 4; ++i) log_( v[i]); t.data = (void*)( (uintptr_t) t.data + 17); return t; }
static void raw_program( uint64_t seed, unsigned ops) {
    Rng r( seed); H = seed;
    for ( int i = 0; i < 6; ++i) { rawf[i] = 0; S[NST-1-i].live = true; S[NST-1-i].last = 0; if ( mprotect( S[NST-1-i].lo, SZ, PROT_READ | PROT_WRITE)) _exit( 78); }
    for ( unsigned i = 0; i < ops; ++i) {
        int k = (int) r.below( 6); uintptr_t v = r.next() & 0xFFFFFF;
        if ( ! rawf[k] || r.below( 20) == 0) { rawf[k] = ctx::detail::make_fcontext( S[NST-1-k].hi - r.below( 64), SZ - 64, raw_fn); ctx::detail::transfer_t t = ctx::detail::jump_fcontext( rawf[k], (void*) v); rawf[k] = t.fctx; log_( (uintptr_t) t.data); }
        else { ctx::detail::transfer_t t = r.below( 3) ? ctx::detail::jump_fcontext( rawf[k], (void*) v) : ctx::detail::ontop_fcontext( rawf[k], (void*) v, raw_top); rawf[k] = t.fctx; log_( (uintptr_t) t.data); }
    }
}
static void raw_done() { for ( int i = 0; i < 6; ++i) { S[NST-1-i].live = false; if ( mprotect( S[NST-1-i].lo, SZ, PROT_NONE)) _exit( 78); } }
#endif
static uint64_t go( uint64_t seed, unsigned kind, bool stepped) {
    unsigned ops = 6 + seed % 14;
    for ( int i = 0; i <= NST; ++i) S[i].last = 0;
#ifndef BOOST_USE_UCONTEXT
    if ( kind == 2) { if ( stepped) begin();
        raw_program( seed, ops * 3);
        if ( stepped) end();
        raw_done(); return H; }
#endif
    if ( stepped) begin();
    program( seed, ops, kind == 1);
    if ( stepped) end();
    for ( int i = 0; i < NST; ++i) REQUIRE( ! S[i].live, "release-missing", "stack %d not released", i);
    return H;
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 10);
    g_phase = "sigstep";
    char * mem = (char*) mmap( 0, (size_t) NST * ( SZ + 8192), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ( mem == MAP_FAILED) return 78;
    for ( int i = 0; i < NST; ++i) { S[i].lo = mem + (size_t) i * ( SZ + 8192) + 4096; S[i].hi = S[i].lo + SZ; S[i].live = false; S[i].last = 0; }
    { char * f = (char*) __builtin_frame_address( 0); S[NST].lo = f - 1024 * 1024; S[NST].hi = f + 64 * 1024; S[NST].live = true;
      volatile char * t = f; for ( int i = 0; i < 1000; ++i) { t -= 1000; * t = 0; } }           // the main stack is mapped down there
    stack_t alt; memset( & alt, 0, sizeof alt); alt.ss_size = 256 * 1024; alt.ss_sp = malloc( alt.ss_size); if ( sigaltstack( & alt, 0)) return 78;
    unsigned long long by[3] = { 0, 0, 0 };
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; uint64_t s = mix( seed, e); unsigned kind = e % 16 == 7 ? 1 : e % 3 == 0 ? 2 : 0;
#ifdef BOOST_USE_UCONTEXT
        if ( kind == 2) kind = 0;
#endif
        on_alt = e % 7 < 4; struct sigaction sa; memset( & sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | ( on_alt ? SA_ONSTACK : 0); sigaction( SIGTRAP, & sa, 0);
        mode_full = e % 4 == 0 ? 1 : e % 4 == 1 ? 7 : e % 4 == 2 ? 97 : 0; if ( kind == 1 && mode_full == 1) mode_full = 31;
        own_contexts = e % 5 == 2; if ( kind == 1) own_contexts = false;
        uint64_t ref = go( s, kind, false), n0 = n_switch;
        uint64_t got = go( s, kind, true); (void) n0; ++by[kind]; ++n_programs;
        REQUIRE( ref == got, "signal", "program %llu (kind %u) behaves differently when interrupted at every instruction", (unsigned long long) e, kind);
    }
    stat( "instructions_interrupted", steps); stat( "distinct_instructions_interrupted", n_rips); stat( "distinct_switch_instructions_interrupted", n_asm_rips); stat( "stepped_programs", n_programs);
    stat( "stacks_scribbled_after_leaving", left_scribbles); stat( "stacks_scribbled_to_the_end", full_scribbles); stat( "handler_contexts", nested_runs);
    stat( "stepped_unwinding_programs", by[1]); stat( "stepped_raw_programs", by[2]); stat( "stepped_ontops", n_ontop); stat( "stepped_switches", n_switch + n_raw); stat( "stepped_exceptions", n_exc);
    sample( "sigstep seed=%llu programs=%llu instructions=%llu distinct=%u in_asm=%u", (unsigned long long) seed, n_programs, steps, n_rips, n_asm_rips);
    return 0;
}
