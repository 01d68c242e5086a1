// The x86_64 port for the Microsoft convention (PE), run on Linux: the three functions are assembled without their PE directives as ms_make_fcontext,
// ms_jump_fcontext, ms_ontop_fcontext; %gs points to a thread information block of ours. The functions of the same names without ms_ call them and compare
// every nonvolatile register (RSI, RDI and XMM6-15 are such here), the hidden result pointer, and the fields of the block that describe the stack in use.
#include "common.hpp"
#include <boost/context/detail/fcontext.hpp>
#include <asm/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <map>
#define MS __attribute__((ms_abi))
using boost::context::detail::transfer_t;
struct MsCall { uint64_t r[8], x[20], r2[8], x2[20]; void * fn; uint64_t a0, a1, a2, ret[2], rax, delta; };
struct Tib { uint64_t f[0x2000 / 8]; };
enum { BASE = 1, LIMIT = 2, STORAGE = 4, SELF = 6, DEALLOC = 0x1478 / 8 };
extern "C" { void ms_shim( MsCall *); MS void * ms_make_fcontext( void *, size_t, void *); void ms_jump_fcontext(); void ms_ontop_fcontext(); void mspe_report(); }
namespace {
Tib tib; Rng rng( 77); unsigned long long n_call, n_reg, n_tib, n_entry;
struct Fresh { void (*fn)( transfer_t); uint64_t lo, hi; }; std::map< void *, Fresh > * fresh; Fresh next; transfer_t (*next_top)( transfer_t);
bool is_fresh;
__attribute__((constructor)) void init() {
    fresh = new std::map< void *, Fresh >(); tib.f[SELF] = (uint64_t) & tib; tib.f[BASE] = 0x7000000000001000; tib.f[LIMIT] = 0x7000000000000000; tib.f[DEALLOC] = 0x7000000000000100; tib.f[STORAGE] = 0x1234;
    if ( syscall( SYS_arch_prctl, ARCH_SET_GS, & tib)) _exit( 78);
}
MS void entry( transfer_t t) {
    Fresh f = next; ++n_entry; uint64_t sp = (uint64_t) __builtin_frame_address( 0);
    REQUIRE( ( sp & 15) == 0, "ms-entry", "stack not aligned at the entry of a context-function");
    REQUIRE( tib.f[BASE] == f.hi && tib.f[LIMIT] == f.lo && tib.f[DEALLOC] == f.lo && tib.f[STORAGE] == 0, "ms-tib", "new context: stack [%llx,%llx), thread block says [%llx,%llx), deallocation stack %llx, fiber storage %llx",
        (unsigned long long) f.lo, (unsigned long long) f.hi, (unsigned long long) tib.f[LIMIT], (unsigned long long) tib.f[BASE], (unsigned long long) tib.f[DEALLOC], (unsigned long long) tib.f[STORAGE]);
    REQUIRE( (uint64_t) & t >= f.lo && (uint64_t) & t < f.hi, "ms-entry", "argument outside the stack");
    f.fn( t);
}
MS transfer_t on_top( transfer_t t) {
    REQUIRE( ( (uint64_t) __builtin_frame_address( 0) & 15) == 0, "ms-entry", "stack not aligned at the entry of a function on top");
    return next_top( t); }
transfer_t call( void (*fn)(), void * to, void * vp, void * f) {
    MsCall c; for ( int i = 0; i < 8; ++i) c.r[i] = rng.next(); for ( int i = 0; i < 20; ++i) c.x[i] = rng.next();
    c.fn = (void*) fn; c.a0 = (uint64_t) to; c.a1 = (uint64_t) vp; c.a2 = (uint64_t) f; c.ret[0] = c.ret[1] = 0xBAD;
    std::map< void *, Fresh >::iterator i = fresh->find( to); if ( i != fresh->end()) { next = i->second; fresh->erase( i); }
    uint64_t before = tib.f[STORAGE]; tib.f[STORAGE] = rng.next(); uint64_t b = tib.f[BASE], l = tib.f[LIMIT], s = tib.f[STORAGE], d = tib.f[DEALLOC];
    ms_shim( & c);
    static const char * n[8] = { "rbx", "rbp", "r12", "r13", "r14", "r15", "rsi", "rdi" }; ++n_call;
    for ( int k = 0; k < 8; ++k) { ++n_reg; REQUIRE( c.r[k] == c.r2[k], "ms-register", "%s: %llx became %llx", n[k], (unsigned long long) c.r[k], (unsigned long long) c.r2[k]); }
    for ( int k = 0; k < 20; ++k) { ++n_reg; REQUIRE( c.x[k] == c.x2[k], "ms-register", "xmm%d changed", 6 + k / 2); }
    REQUIRE( c.rax == (uint64_t) c.ret && ! c.delta, "ms-result", "result pointer %llx instead of %p", (unsigned long long) c.rax, (void*) c.ret);
    ++n_tib; REQUIRE( tib.f[BASE] == b && tib.f[LIMIT] == l && tib.f[STORAGE] == s && tib.f[DEALLOC] == d, "ms-tib", "stack base %d limit %d fiber storage %d deallocation stack %d kept", tib.f[BASE] == b, tib.f[LIMIT] == l, tib.f[STORAGE] == s, tib.f[DEALLOC] == d);
    tib.f[STORAGE] = before; transfer_t t = { (void*) c.ret[0], (void*) c.ret[1] }; return t;
}
__attribute__((destructor)) void done() { mspe_report(); }
}
extern "C" {
void mspe_report() { if ( n_call) { printf( "STAT ms_switches %llu\nSTAT ms_registers_compared %llu\nSTAT ms_thread_block_comparisons %llu\nSTAT ms_entries %llu\n", n_call, n_reg, n_tib, n_entry); fflush( stdout); n_call = 0; } }
void * make_fcontext( void * sp, size_t size, void (*fn)( transfer_t)) {
    void * h = ms_make_fcontext( sp, size, (void*) & entry); Fresh f = { fn, (uint64_t) sp - size, (uint64_t) sp }; (* fresh)[h] = f; return h; }
transfer_t jump_fcontext( void * to, void * vp) { return call( & ms_jump_fcontext, to, vp, 0); }
transfer_t ontop_fcontext( void * to, void * vp, transfer_t (*fn)( transfer_t)) { next_top = fn; return call( & ms_ontop_fcontext, to, vp, (void*) & on_top); }
}
