// fiber / continuation switches observed at register level (C02, C23).
// Every create, resume, resume_with and destruction is made through shim_call, which plants values in the callee-saved
// registers, the control words and the caller's frame and reads them back when the call comes back.
//   -DUSE_CALLCC; -DNO_FPENV (library built with BOOST_USE_TSX); -DGUARD (BOOST_CONTEXT_TLS_STACK_PROTECTOR)
#include "common.hpp"
#include "shim.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <exception>
#include <utility>
namespace ctx = boost::context;
#if defined(__clang__)
#define NOGUARD __attribute__((noinline)) __attribute__((no_stack_protector))
#else
#define NOGUARD __attribute__((noinline, optimize("no-stack-protector")))
#endif
extern "C" { Entry g_entry; void ctx_main( void *, void *) { _exit( 78); } void * ontop_main( void *, void *) { _exit( 78); } }
enum { MXC = 0xFFC0, N = 7 };
struct T { Ctx h; bool live, started, running; uint32_t mx; uint16_t x87; uint64_t guard; int slot; bool stop; };
static T ts[N];               // 0 = main
static Rng R( 1);
static unsigned long long n_resume, n_with, n_create, n_destroy, n_entry, n_regs, n_throw, n_finish;
static HashSet cov;
static struct { int from, to, kind; uint32_t mx; uint16_t x87; bool finished; } X;
static int cur;
static uint32_t mxcsr() { uint32_t v; __asm__ __volatile__( "stmxcsr %0" : "=m"( v)); return v & MXC; }
static uint16_t x87cw() { uint16_t v; __asm__ __volatile__( "fnstcw %0" : "=m"( v)); return v; }
static uint64_t guard() { uint64_t g; __asm__ __volatile__( "movq %%fs:0x28,%0" : "=r"( g)); return g; }
static NOGUARD void set_guard( uint64_t g) { __asm__ __volatile__( "movq %0,%%fs:0x28" : : "r"( g)); }
static void set_ctl( uint32_t m, uint16_t x) { __asm__ __volatile__( "ldmxcsr %0; fldcw %1" : : "m"( m), "m"( x)); }
static void prep( Call & k) {
    for ( int i = 0; i < 6; ++i) k.in.r[i] = R.next();
    static const uint16_t pc[3] = { 0, 0x200, 0x300 };
    k.in.mxcsr = 0x1F80 | ( R.below( 4) << 13) | ( R.below( 2) << 15) | ( R.below( 2) << 6);
    k.in.x87 = (uint16_t)( 0x7F | pc[R.below( 3)] | ( R.below( 4) << 10));
    for ( int i = 0; i < 32; ++i) k.garbage[i] = R.next();
    memset( & k.out, 0, sizeof k.out);
}
static const char * rn[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
static void check_call( Call & k, const char * w, bool switched) {
    (void) switched;
    for ( int i = 0; i < 6; ++i) REQUIRE( k.in.r[i] == k.out.r[i], "callee-saved", "%s: %s is %llx, was %llx", w, rn[i], (unsigned long long) k.out.r[i], (unsigned long long) k.in.r[i]);
    REQUIRE( k.rsp_delta == 0 && k.canary_bad == 0, "caller-frame", "%s: stack pointer moved or caller's frame overwritten", w);
    uint32_t mx = k.in.mxcsr & MXC; uint16_t x = k.in.x87;
#ifdef NO_FPENV
    if ( switched) { mx = X.mx; x = X.x87; }
#endif
    REQUIRE( ( k.out.mxcsr & MXC) == mx && k.out.x87 == x, "fpenv", "%s: MXCSR %x x87 %x, expected %x %x", w, k.out.mxcsr & MXC, k.out.x87, mx, x);
    uint16_t tag; memcpy( & tag, k.env + 8, 2);
    REQUIRE( tag == 0xFFFF, "x87-stack", "%s: x87 register stack not empty", w);
    REQUIRE( ! ( k.eflags & 0x400), "direction-flag", "%s: direction flag set", w);
    REQUIRE( k.guard_before == k.guard_after, "stack-guard", "%s: stack guard %llx, was %llx", w, (unsigned long long) k.guard_after, (unsigned long long) k.guard_before);
    n_regs += 6;
}
static void check_entry( int me, void * frame, const char * w) {
    REQUIRE( ( (uintptr_t) frame & 15) == 0, "stack-align", "%s: frame at %p", w, frame);
    uint32_t mx = ts[me].mx; uint16_t x = ts[me].x87;
#ifdef NO_FPENV
    mx = X.mx; x = X.x87;
#endif
    REQUIRE( mxcsr() == mx && x87cw() == x, "fpenv", "%s: starts with MXCSR %x x87 %x, expected %x %x", w, mxcsr(), x87cw(), mx, x);
    uint64_t fl; __asm__ __volatile__( "pushfq; popq %0" : "=r"( fl));
    REQUIRE( ! ( fl & 0x400), "direction-flag", "%s: direction flag set", w);
    ++n_entry;
}
static void note_from( Ctx && h) {            // handle of whoever switched here
    if ( X.from >= 0) { ts[X.from].h = std::move( h); REQUIRE( ts[X.from].h, "handle", "handle of context %d is empty", X.from); }
    else REQUIRE( ! h, "handle", "handle of a finished context is not empty");
}
struct Exc { int target; };
static void body( int me);
static NOGUARD Ctx fn_guarded( int me, Ctx && h) {
    check_entry( me, __builtin_frame_address( 0), "context-function");
    REQUIRE( X.to == me && ! ts[me].started, "control", "context %d entered, %d resumed", me, X.to);
    uint64_t g0 = guard();
#ifdef GUARD
    REQUIRE( g0 == ts[me].guard, "stack-guard", "context starts with guard %llx, creator had %llx", (unsigned long long) g0, (unsigned long long) ts[me].guard);
    set_guard( ts[me].guard = R.next() & ~0xFFull);
#endif
    ts[me].started = true; cur = me;
    note_from( std::move( h));
    body( me);
    // finish: continue some other suspended context, normally main
    set_guard( g0);
    int t = 0; 
    ++n_finish; ts[me].live = false; ts[me].started = false;
    X.from = -1; X.to = t; X.kind = 0; X.mx = mxcsr(); X.x87 = x87cw();
    return std::move( ts[t].h);
}
struct Fn { int me; Ctx operator()( Ctx && h) { return fn_guarded( me, std::move( h)); } };
static int g_arg_t;
#ifndef USE_CALLCC
static void do_create() { ts[g_arg_t].h = Ctx( std::allocator_arg, ctx::fixedsize_stack( 65536), Fn{ g_arg_t }); }
#endif
static Ctx g_ret;
static void do_resume() { g_ret = std::move( ts[g_arg_t].h).resume(); }
static void do_with() {
    int me = g_arg_t, from = cur; bool thr = ts[me].started && R.below( 6) == 0;
    g_ret = std::move( ts[me].h).resume_with( [me,from,thr]( Ctx && h) -> Ctx {
        REQUIRE( X.to == me && X.kind == 1, "ontop", "function on top runs unexpectedly");
        X.kind = 2;
        void * f = __builtin_frame_address( 0);
        REQUIRE( ( (uintptr_t) f & 15) == 0, "stack-align", "ontop function: frame at %p", f);
        uint32_t mx = ts[me].mx; uint16_t x = ts[me].x87;
#ifdef NO_FPENV
        mx = X.mx; x = X.x87;
#endif
        REQUIRE( mxcsr() == mx && x87cw() == x, "fpenv", "ontop function: MXCSR %x x87 %x, expected %x %x", mxcsr(), x87cw(), mx, x);
        REQUIRE( h, "handle", "ontop function got an empty handle");
        if ( thr) { ts[from].h = std::move( h); throw Exc{ me }; }
        return std::move( h);
    });
}
static bool g_threw;
static void guarded_resume() { g_threw = false; try { do_resume(); } catch ( Exc const& e) { g_threw = true; REQUIRE( e.target == cur || 1, "x", "x"); } }
static void guarded_with() { g_threw = false; try { do_with(); } catch ( Exc const& e) { g_threw = true; } }
static void do_destroy() { Ctx x = std::move( ts[g_arg_t].h); }
#ifdef USE_CALLCC
static void guarded_create() { g_threw = false; try { g_ret = ctx::callcc( std::allocator_arg, ctx::fixedsize_stack( 65536), Fn{ g_arg_t }); } catch ( Exc const&) { g_threw = true; } }
#endif
static void back( int me, Call & k, const char * w) {
    REQUIRE( X.to == me, "control", "%s: context %d continued, %d resumed", w, me, X.to);
    check_call( k, w, true);
    cur = me;
    if ( ! g_threw) note_from( std::move( g_ret)); else ++n_throw;
}
static void NOINLINE op( int me) {
    int t; do t = R.below( N); while ( t == me);
    Call k; prep( k);
    cov.add( mix( mix( me, t), ts[t].live * 4 + ts[t].started * 2));
    cur = me;
    if ( t && ! ts[t].live) {
        g_arg_t = t; ts[t].mx = k.in.mxcsr & MXC; ts[t].x87 = k.in.x87; ts[t].live = true; ts[t].started = false; ts[t].guard = guard();
        ++n_create;
#ifdef USE_CALLCC
        X.from = me; X.to = t; X.kind = 0; X.mx = k.in.mxcsr & MXC; X.x87 = k.in.x87;
        ts[me].mx = k.in.mxcsr & MXC; ts[me].x87 = k.in.x87;
        k.fn = (void*) & guarded_create; shim_call( & k); back( me, k, "callcc");
#else
        k.fn = (void*) & do_create; shim_call( & k); check_call( k, "creation", false);
#endif
        return;
    }
    if ( t && R.below( 12) == 0) {
        g_arg_t = t; k.fn = (void*) & do_destroy; ++n_destroy;
        ts[t].live = ts[t].started = false;
        X.mx = k.in.mxcsr & MXC; X.x87 = k.in.x87;
        shim_call( & k);
#ifndef NO_FPENV
        check_call( k, "destruction", true);
#else
        // the unwound context runs with whatever control words are in force; registers must survive
        k.in.mxcsr = k.out.mxcsr; k.in.x87 = k.out.x87; X.mx = k.out.mxcsr & MXC; X.x87 = k.out.x87; check_call( k, "destruction", true);
#endif
        return;
    }
    bool with = R.below( 3) == 0;
    g_arg_t = t; X.from = me; X.to = t; X.kind = with; X.mx = k.in.mxcsr & MXC; X.x87 = k.in.x87;
    ts[me].mx = k.in.mxcsr & MXC; ts[me].x87 = k.in.x87;
    if ( with) ++n_with; else ++n_resume;
    k.fn = with ? (void*) & guarded_with : (void*) & guarded_resume;
    shim_call( & k);
    back( me, k, with ? "resume_with" : "resume");
}
static void body( int me) { while ( R.below( 40)) op( me); }
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 200), ops = arg_ull( argc, argv, "--ops", 100);
    g_phase = "regs";
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        ts[0].live = ts[0].started = true;
        for ( uint64_t i = 0; i < ops; ++i) op( 0);
        for ( int i = 1; i < N; ++i) { ts[i].live = ts[i].started = false; Ctx x = std::move( ts[i].h); }
        set_ctl( 0x1F80, 0x37F);
    }
    stat( "resumes", n_resume); stat( "resume_withs", n_with); stat( "contexts_made", n_create); stat( "destructions", n_destroy); stat( "entries_observed", n_entry);
    stat( "exceptions_from_ontop", n_throw); stat( "finished", n_finish); stat( "register_values_compared", n_regs);
    stat( "switch_calls_observed", n_resume + n_with + n_create + n_destroy); stat( "distinct_from_to_state", cov.n);
    sample( "register level, fiber/continuation API: seed=%llu episodes=%llu", (unsigned long long) seed, (unsigned long long) eps);
    fflush( 0); return 0;
}
