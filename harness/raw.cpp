// Raw fcontext functions observed at register level (C02, C03, C23).
//   -DNO_FPENV   library built with BOOST_USE_TSX: control words carry over instead of being kept per context
//   -DGUARD      library built with BOOST_CONTEXT_TLS_STACK_PROTECTOR: per-context stack guard values
#include "common.hpp"
#include "shim.hpp"
#ifdef MSPE
extern "C" void mspe_report();
#endif
#ifdef CETEMU
# include "cetemu.hpp"
# include <sys/syscall.h>
# include <unistd.h>
#endif
#include <boost/context/detail/fcontext.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <vector>
namespace d = boost::context::detail;

extern "C" { Entry g_entry; void shim_call( Call *); void ctx_entry( d::transfer_t); d::transfer_t ontop_entry( d::transfer_t); void returning_entry( d::transfer_t);
             void ctx_main( void * fctx, void * data); d::transfer_t ontop_main( void * fctx, void * data); }

#ifndef MIN_REGION
# define MIN_REGION 256
#endif
enum { MXC = 0xFFC0, N = 9 };
struct C {
    char * base; size_t size; char * sp; char * map; size_t maplen;
    void * fctx;                // its handle while suspended
    bool made, started; int id;
    uint32_t mx; uint16_t x87;  // control words at creation
    uint64_t guard;             // guard at creation, later its own
};
static C cs[N];
static Rng R( 1);
static unsigned long long n_jump, n_ontop, n_make, n_entry, n_regs, n_exit, n_tiny, n_replace, n_align;
static HashSet cov;
static struct { int from, to, kind; uint64_t data; void * ret_fctx; uint64_t ret_data; uint32_t mx; uint16_t x87; bool fresh; } X;
static int cur;

static void margins_fill( C & c) { memset( c.map, 0xB7, c.maplen); }
static void margins_check( C & c, const char * w) {
    for ( char * p = c.map; p < c.base; ++p) REQUIRE( (unsigned char) * p == 0xB7, "raw-bounds", "%s: byte %ld below the region was written", w, (long)( c.base - p));
    for ( char * p = c.sp; p < c.map + c.maplen; ++p) REQUIRE( (unsigned char) * p == 0xB7, "raw-bounds", "%s: byte %ld above the stack top was written", w, (long)( p - c.sp));
}
static void rnd_fp( Regs & r) {
    static const uint16_t pc[3] = { 0, 0x200, 0x300 };
    r.mxcsr = 0x1F80 & ~( ( R.below( 4) ? 0 : 1) << 12);      // sometimes unmask "inexact": it never fires in integer code
    r.mxcsr |= ( R.below( 4) << 13) | ( R.below( 2) << 15) | ( R.below( 2) << 6);
    r.x87 = (uint16_t)( 0x7F | pc[R.below( 3)] | ( R.below( 4) << 10)) & 0xFF7F;
    if ( R.below( 4) == 0) r.x87 &= (uint16_t) ~( 1u << R.below( 6)); // exception masks too
}
static void prep( Call & k) {
    for ( int i = 0; i < 6; ++i) k.in.r[i] = R.next();
    rnd_fp( k.in);
    for ( int i = 0; i < 32; ++i) k.garbage[i] = R.next();
    memset( & k.out, 0, sizeof k.out);
}
static const char * rn[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
// control words in force when control arrives somewhere: the context's own ones, or those of the switcher
static void check_fp( uint32_t mx, uint16_t x87, uint32_t own_mx, uint16_t own_x87, const char * w) {
#ifdef NO_FPENV
    own_mx = X.mx; own_x87 = X.x87;
#endif
    REQUIRE( ( mx & MXC) == ( own_mx & MXC), "fpenv", "%s: MXCSR %x, expected %x", w, mx & MXC, own_mx & MXC);
    REQUIRE( x87 == own_x87, "fpenv", "%s: x87 control word %x, expected %x", w, x87, own_x87);
}
static void check_env( unsigned char * env, uint64_t eflags, const char * w) {
    uint16_t tag; memcpy( & tag, env + 8, 2);
    REQUIRE( tag == 0xFFFF, "x87-stack", "%s: x87 register stack not empty (tag word %x)", w, tag);
    REQUIRE( ! ( eflags & 0x400), "direction-flag", "%s: direction flag set", w);
}
static void check_call( Call & k, const char * w, bool switched) {
    for ( int i = 0; i < 6; ++i) REQUIRE( k.in.r[i] == k.out.r[i], "callee-saved", "%s: %s is %llx, was %llx", w, rn[i], (unsigned long long) k.out.r[i], (unsigned long long) k.in.r[i]);
    REQUIRE( k.rsp_delta == 0, "callee-saved", "%s: stack pointer moved by %lld", w, (long long) k.rsp_delta);
    REQUIRE( k.canary_bad == 0, "caller-frame", "%s: %llu words of the caller's frame were overwritten", w, (unsigned long long) k.canary_bad);
    if ( switched) check_fp( k.out.mxcsr, k.out.x87, k.in.mxcsr, k.in.x87, w);
    else { REQUIRE( ( k.out.mxcsr & MXC) == ( k.in.mxcsr & MXC) && k.out.x87 == k.in.x87, "fpenv", "%s: control words changed by a call without switch", w); }
    check_env( k.env, k.eflags, w);
    REQUIRE( k.guard_before == k.guard_after, "stack-guard", "%s: TLS stack guard is %llx, was %llx", w, (unsigned long long) k.guard_after, (unsigned long long) k.guard_before);
    n_regs += 6;
}
static bool on( C & c, void * p) { return (char*) p >= c.base && (char*) p < c.sp; }
static void check_place( int id, void * p, const char * w) {
    for ( int i = 1; i < N; ++i) if ( cs[i].made && on( cs[i], p)) { REQUIRE( i == id, "stack", "%s: context %d runs on the stack of %d", w, id, i); return; }
    REQUIRE( id == 0, "stack", "%s: context %d runs outside its stack", w, id);
}
static void check_handle_place( int from, void * h, const char * w) {
    REQUIRE( h, "handle", "%s: null handle of context %d", w, from);
    if ( from) REQUIRE( on( cs[from], h), "handle", "%s: handle %p of context %d outside its stack", w, h, from);
    else for ( int i = 1; i < N; ++i) if ( cs[i].made) REQUIRE( ! on( cs[i], h), "handle", "%s: handle of main inside a context stack", w);
}
typedef d::transfer_t ( * jump_t)( d::fcontext_t const, void *);
// with shadow stacks, the word below the stack top tells make_fcontext() which one the context gets
static void shadow( char * sp, int i) {
#ifdef CETEMU
    static void * at[64]; static size_t len[64]; if ( at[i]) munmap( at[i], len[i]);
    len[i] = 4096 + 8 * R.below( 512); at[i] = (void*) syscall( 453, 0, len[i], 1); if ( at[i] == MAP_FAILED) _exit( 78);
    uint64_t top = (uint64_t) at[i] + len[i]; memcpy( sp - 8, & top, 8);
#else
    (void) sp; (void) i;
#endif
}
typedef d::fcontext_t ( * make_t)( void *, std::size_t, void (*)( d::transfer_t));
typedef d::transfer_t ( * ontop_t)( d::fcontext_t const, void *, d::transfer_t (*)( d::transfer_t));
static uint64_t cur_guard() { uint64_t g; __asm__ __volatile__( "movq %%fs:0x28,%0" : "=r"( g)); return g; }

static void do_make( int me, int i) {
    C & c = cs[i];
    if ( c.made) margins_check( c, "before reuse");
    // new region: random size, random alignment of the top
    size_t size = 6144 + R.below( 16384); if ( R.below( 3) == 0) size &= ~(size_t) 15;
    c.base = c.map + 512 + R.below( 64); c.size = size; c.sp = c.base + size;
    if ( R.below( 2)) { size_t al = (uintptr_t) c.sp & 15; c.sp -= al; c.size -= al; }   // half of the tops aligned
    margins_fill( c);
    memset( c.base, 0x11, c.size);
    Call k; prep( k);
    shadow( c.sp, c.id);
    make_t f = & d::make_fcontext;
    k.fn = (void*) f; k.a0 = (uint64_t) c.sp; k.a1 = c.size; k.a2 = (uint64_t) & ctx_entry;
    c.mx = k.in.mxcsr; c.x87 = k.in.x87; c.guard = cur_guard();
    shim_call( & k);
    check_call( k, "make_fcontext", false);
    c.fctx = (void*) k.rax;
    REQUIRE( c.fctx && on( c, c.fctx), "handle", "make_fcontext returned %p outside the region [%p,%p)", c.fctx, (void*) c.base, (void*) c.sp);
    margins_check( c, "make_fcontext");
    // bytes far below the handle must be untouched too: a context starts with all of its stack free
    for ( char * p = c.base; p < (char*) c.fctx - 256; p += 37) REQUIRE( (unsigned char) * p == 0x11, "raw-bounds", "make_fcontext wrote %ld bytes below the context-data", (long)( (char*) c.fctx - p));
    c.made = true; c.started = false; ++n_make;
    cov.add( mix( mix( 1, (uintptr_t) c.sp & 63), me));
}
static void arrive( int me, int kind_seen, void * fctx, uint64_t data, const char * w) {
    (void) kind_seen;
    REQUIRE( X.to == me, "control", "%s: context %d continued, %d was resumed", w, me, X.to);
    REQUIRE( data == X.ret_data, "data", "%s: data %llx delivered, %llx expected", w, (unsigned long long) data, (unsigned long long) X.ret_data);
    if ( X.ret_fctx) REQUIRE( fctx == X.ret_fctx, "handle", "%s: handle %p delivered, ontop function returned %p", w, fctx, X.ret_fctx);
    else { check_handle_place( X.from, fctx, w); cs[X.from].fctx = fctx; }
    cur = me; X.to = -1;
}
// runs inside context `me`: one operation
static void NOINLINE do_op( int me) {
    int t;
    do t = R.below( N); while ( t == me);
    if ( t != 0 && ( ! cs[t].made || R.below( 50) == 0)) { if ( me == 0 || ! on( cs[t], __builtin_frame_address( 0))) do_make( me, t); }
    Call k; prep( k);
    bool ontop = cs[t].started && R.below( 3) == 0;
    uint64_t data = R.below( 8) ? R.next() : ( R.below( 2) ? 0 : ~0ull);
    jump_t jf = & d::jump_fcontext; ontop_t of = & d::ontop_fcontext;
    k.fn = ontop ? (void*) of : (void*) jf;
    k.a0 = (uint64_t) cs[t].fctx; k.a1 = data; k.a2 = ontop ? (uint64_t) & ontop_entry : R.next();
    X.from = me; X.to = t; X.kind = ontop; X.data = data; X.ret_data = data; X.ret_fctx = 0; X.mx = k.in.mxcsr; X.x87 = k.in.x87; X.fresh = t && ! cs[t].started;
    cs[me].fctx = 0; cs[t].fctx = 0; cs[me].mx = k.in.mxcsr; cs[me].x87 = k.in.x87; cs[me].started = true;
    if ( X.fresh) { g_entry.guard_value = R.next() & ~0xFFull; }
    if ( ontop) ++n_ontop; else ++n_jump;
    cov.add( mix( mix( mix( 2, me), t), ontop + 2 * X.fresh));
    volatile uint64_t local = data ^ 0x77;
    shim_call( & k);
    arrive( me, 0, (void*) k.rax, k.rdx, ontop ? "return of ontop_fcontext" : "return of jump_fcontext");
    check_call( k, ontop ? "ontop_fcontext" : "jump_fcontext", true);
    check_place( me, __builtin_frame_address( 0), "after switch");
    REQUIRE( local == ( data ^ 0x77), "locals", "local variable changed");
    if ( me) margins_check( cs[me], "after switch");
}
static void check_entry( Entry & e, int me, void * fctx, void * data, const char * w) {
    REQUIRE( ( ( e.rsp + 8) & 15) == 0, "stack-align", "%s: entered with stack pointer %llx", w, (unsigned long long) e.rsp);
    REQUIRE( e.rdi == (uint64_t) fctx && e.rsi == (uint64_t) data, "data", "%s: arguments", w);
    check_env( e.env, e.eflags, w);
    check_place( me, (void*)( e.rsp), w);
    ++n_entry; ++n_align;
}
void ctx_main( void * fctx, void * data) {
    int me = X.to;
    REQUIRE( me > 0 && X.fresh && ! X.kind, "control", "context-function entered although context %d was resumed (kind %d)", me, X.kind);
    C & c = cs[me];
    REQUIRE( ! c.started, "control", "context-function of context %d entered twice", me);
    check_entry( g_entry, me, fctx, data, "context-function");
    check_fp( g_entry.mxcsr, g_entry.x87, c.mx, c.x87, "context-function");
#ifdef GUARD
    REQUIRE( g_entry.guard == c.guard, "stack-guard", "new context starts with guard %llx, its creator had %llx", (unsigned long long) g_entry.guard, (unsigned long long) c.guard);
    REQUIRE( cur_guard() == g_entry.guard_value, "stack-guard", "internal");
#endif
    c.started = true;
    arrive( me, 0, fctx, (uint64_t) data, "context-function");
    margins_check( c, "entry");
    for (;;) do_op( me);
}
d::transfer_t ontop_main( void * fctx, void * data) {
    int me = X.to;
    REQUIRE( X.kind == 1 && X.ret_data == X.data && X.ret_fctx == 0, "ontop", "ontop function entered unexpectedly or twice");
    check_entry( g_entry, me, fctx, data, "ontop function");
    check_fp( g_entry.mxcsr, g_entry.x87, cs[me].mx, cs[me].x87, "ontop function");
    REQUIRE( (uint64_t) data == X.data, "data", "ontop function got data %p, expected %llx", data, (unsigned long long) X.data);
    check_handle_place( X.from, fctx, "ontop function");
    cs[X.from].fctx = fctx;
    X.kind = 2;
    // hand over something else: another suspended context's handle or nothing recognisable, new data
    void * rf = fctx;
    if ( R.below( 3) == 0) { int o = R.below( N); if ( cs[o].fctx && o != me) rf = cs[o].fctx; ++n_replace; }
    d::transfer_t r; r.fctx = rf; r.data = (void*) R.next();
    X.ret_fctx = rf; X.ret_data = (uint64_t) r.data;
    return r;
}
static void tiny_regions() {
#ifdef CETEMU
    return;
#endif
    // construction alone, on regions just large enough, must stay inside them
    for ( int i = 0; i < 400; ++i) {
        static char buf[4096]; memset( buf, 0xB7, sizeof buf);
        size_t size = MIN_REGION + R.below( 512), off = 512 + R.below( 64);
        char * base = buf + off, * sp = base + size;
        Call k; prep( k); make_t f = & d::make_fcontext;
        k.fn = (void*) f; k.a0 = (uint64_t) sp; k.a1 = size; k.a2 = (uint64_t) & ctx_entry;
        shim_call( & k); check_call( k, "make_fcontext", false);
        char * h = (char*) k.rax;
        REQUIRE( h >= base && h < sp, "handle", "make_fcontext returned a handle outside a region of %zu bytes", size);
        for ( char * p = buf; p < base; ++p) REQUIRE( (unsigned char) * p == 0xB7, "raw-bounds", "byte %ld below a region of %zu bytes written", (long)( base - p), size);
        for ( char * p = sp; p < buf + sizeof buf; ++p) REQUIRE( (unsigned char) * p == 0xB7, "raw-bounds", "byte %ld above the top written", (long)( p - sp));
        ++n_tiny;
    }
}
// a context-function that returns ends the process with status 0, from whatever context it was entered
static int ret_depth;
static void ret_chain( d::transfer_t t) {
    (void) t;
    if ( ret_depth-- > 0) {
        char * s = (char*) mmap( 0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        char * top = s + 65536 - R.below( 200); shadow( top, N + ret_depth);
        d::fcontext_t f = d::make_fcontext( top, 60000, ret_depth ? ret_chain : returning_entry);
        Call k; prep( k); jump_t jf = & d::jump_fcontext; k.fn = (void*) jf; k.a0 = (uint64_t) f; k.a1 = R.next();
        shim_call( & k);
        _exit( 91);
    }
}
static void exit_test( int depth) {
    fflush( 0);
    pid_t p = fork();
    if ( p == 0) { ret_depth = depth; d::transfer_t t = { 0, 0 }; ret_chain( t); _exit( 92); }
    int st = 0; if ( p < 0 || waitpid( p, & st, 0) != p) _exit( 78);
    REQUIRE( WIFEXITED( st) && WEXITSTATUS( st) == 0, "exit-status", "returning context-function at depth %d: wait status %x, expected exit status 0", depth, st);
    ++n_exit;
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 200), ops = arg_ull( argc, argv, "--ops", 400);
    g_phase = "raw";
    size_t len = 65536;
    for ( int i = 0; i < N; ++i) { cs[i].id = i; if ( i) { cs[i].map = (char*) mmap( 0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); cs[i].maplen = 26000; } }
#ifdef GUARD
    g_entry.set_guard = 1;
#endif
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        for ( int i = 1; i < N; ++i) { if ( cs[i].made) margins_check( cs[i], "end of episode"); cs[i].made = cs[i].started = false; cs[i].fctx = 0; }
        cs[0].started = true; cur = 0;
        for ( uint64_t i = 0; i < ops; ++i) do_op( 0);
    }
    tiny_regions();
    if ( ! arg_ull( argc, argv, "--noexit", 0)) for ( int i = 1; i < 8; ++i) exit_test( i);
    stat( "raw_jumps", n_jump); stat( "raw_ontops", n_ontop); stat( "contexts_made", n_make); stat( "entries_observed", n_entry);
    stat( "register_values_compared", n_regs); stat( "exit_tests", n_exit); stat( "tiny_regions", n_tiny); stat( "replaced_handles", n_replace);
    stat( "raw_switches", n_jump + n_ontop); stat( "distinct_from_to_kind_alignment", cov.n);
    sample( "raw seed=%llu episodes=%llu ops_in_main=%llu", (unsigned long long) seed, (unsigned long long) eps, (unsigned long long) ops);
#ifdef CETEMU
    cet_report();
#endif
#ifdef MSPE
    mspe_report();
#endif
    fflush( 0); _exit( 0);
}
#ifdef CETEMU
extern "C" int cet_regions_may_stay() { return 1; }
#endif
