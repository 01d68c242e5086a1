// Exceptions must not leave a context; stack walkers must stop at its first frame (C08).
// Stacks lie between two inaccessible areas, so any read beyond them is a fault.
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#if ! defined(BOOST_USE_UCONTEXT) && ! defined(BOOST_USE_WINFIB)
#include <boost/context/detail/fcontext.hpp>
#endif
#include <csignal>
#ifdef CETEMU
# include "cetemu.hpp"
#endif
#include <exception>
#include <execinfo.h>
#include <functional>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unwind.h>
#include <vector>
namespace ctx = boost::context;
static Rng R( 1);
static unsigned long long n_death, n_walks, n_frames, n_exc, n_ctx; static HashSet cov;
enum { SZ = 128 * 1024, GAP = 64 * 1024 };
struct Fenced {                                     // [GAP inaccessible][stack][GAP inaccessible]
    char ** lo_out; size_t off;
    ctx::stack_context allocate() {
        char * m = (char*) mmap( 0, SZ + 2 * GAP, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if ( m == MAP_FAILED || mprotect( m + GAP, SZ, PROT_READ | PROT_WRITE)) _exit( 78);
        * lo_out = m + GAP; ctx::stack_context s; s.sp = m + GAP + SZ - off; s.size = SZ - off; return s;
    }
    void deallocate( ctx::stack_context & s) { munmap( (char*) s.sp + off - SZ - GAP, SZ + 2 * GAP); }
};
template< typename F > static Ctx make( char ** lo, size_t off, F && f) {
    Fenced a = { lo, off };
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, a, std::forward< F >( f));
#else
    return Ctx( std::allocator_arg, a, std::forward< F >( f));
#endif
}
// ------------------------------------------------------------ escaping exceptions
static char * d_lo[8]; static int d_expect; static Ctx d_keep[4];
// Whether locals are destroyed before std::terminate is implementation-defined (gcc: no, clang: yes). A handle among them would
// unwind the context it stands for, possibly main, so handles are stashed before the exception is thrown.
#define STASH( h, i) d_keep[i] = std::move( h)
#if defined(BOOST_USE_WINFIB)                       // Windows fibers have stacks of their own
static char * stack_of( char *) { return winshim::self() ? winshim::self()->lo : 0; }
static size_t size_of( char *) { return winshim::self() ? winshim::self()->size : 0; }
#else
static char * stack_of( char * lo) { return lo; }
static size_t size_of( char *) { return SZ; }
#endif
// stack on which terminate must be called
static void on_terminate() {
    char here; char * lo = d_expect >= 0 ? d_lo[d_expect] : 0;
    bool in = lo && stack_of( lo) && & here >= stack_of( lo) && & here < stack_of( lo) + size_of( lo);
    _exit( in ? 50 : 51);
}
struct MyE : std::runtime_error { MyE() : std::runtime_error( "x") {} };
struct Plain { int a[40]; };
struct VirtA { virtual ~VirtA() {} }; struct VirtB : virtual VirtA {}; struct VirtC : VirtB, std::exception {};
struct LikeUnwind { void * fctx; };                 // looks like the library's own exception but is none
static void NOINLINE boom( int type, int depth) {
    std::string keep( 30, 'k');
    if ( depth > 0) { boom( type, depth - 1); if ( keep.empty()) abort(); return; }
    switch ( type % 12) {
    case 0: throw 42; case 1: throw std::runtime_error( "r"); case 2: throw MyE(); case 3: throw Plain(); case 4: throw "literal"; case 5: throw (void*) 0;
    case 6: throw VirtC(); case 7: throw std::string( "s"); case 8: throw std::bad_alloc(); case 9: throw LikeUnwind{ 0 }; case 10: throw std::make_exception_ptr( 1); default: throw nullptr;
    }
}
static const int NSIT = 10;
static void scenario( int sit, int type, int depth) {
    Ctx a, b;
    try {
        switch ( sit) {
        case 0: // immediately
            d_expect = 0; a = make( & d_lo[0], 0, [=]( Ctx && h) -> Ctx { STASH( h, 0); boom( type, depth); return std::move( d_keep[0]); }); a = std::move( a).resume(); break;
        case 1: // after some switches
            d_expect = 0; a = make( & d_lo[0], 24, [=]( Ctx && h) -> Ctx { for ( int i = 0; i < 5; ++i) h = std::move( h).resume(); STASH( h, 0); boom( type, depth); return std::move( d_keep[0]); }); for ( int i = 0; i < 20 && a; ++i) a = std::move( a).resume(); break;
        case 2: // nested: the resumer catches everything
            d_expect = 1; a = make( & d_lo[0], 0, [&,type,depth]( Ctx && h) -> Ctx {
                try { Ctx i = make( & d_lo[1], 0, [=]( Ctx && g) -> Ctx { STASH( g, 1); boom( type, depth); return std::move( d_keep[1]); }); i = std::move( i).resume(); } catch ( ctx::detail::forced_unwind const&) { throw; } catch ( ...) { _exit( 60); }
                return std::move( h); }); a = std::move( a).resume(); break;
        case 3: // out of a function on top of a suspended context
            d_expect = 0; a = make( & d_lo[0], 0, [=]( Ctx && h) -> Ctx { h = std::move( h).resume(); return std::move( h); });
#ifndef USE_CALLCC
            a = std::move( a).resume();
#endif
            a = std::move( a).resume_with( [=]( Ctx && h) -> Ctx { STASH( h, 0); boom( type, depth); return std::move( d_keep[0]); }); break;
        case 4: // out of a function on top of a context that has not started (fiber) / is suspended in a loop (callcc)
            d_expect = 0; a = make( & d_lo[0], 8, [=]( Ctx && h) -> Ctx { for (;;) h = std::move( h).resume(); return std::move( h); });
            a = std::move( a).resume_with( [=]( Ctx && h) -> Ctx { STASH( h, 0); boom( type, depth); return std::move( d_keep[0]); }); break;
        case 5: // a handler replaces the library's exception by another one
            d_expect = 0; a = make( & d_lo[0], 0, [=]( Ctx && h) -> Ctx { try { for (;;) h = std::move( h).resume(); } catch ( ctx::detail::forced_unwind const&) { STASH( h, 2); boom( type, depth); } return std::move( h); });
            a = std::move( a).resume(); { Ctx x = std::move( a); } break;
        case 6: // on a thread
            d_expect = 0; std::thread( [=]() { try { Ctx c = make( & d_lo[0], 0, [=]( Ctx && h) -> Ctx { STASH( h, 0); boom( type, depth); return std::move( d_keep[0]); }); c = std::move( c).resume(); } catch ( ...) { _exit( 60); } _exit( 61); }).join(); break;
        case 7: // while another context has an exception in flight (resumed from a destructor during unwinding)
            d_expect = 1; a = make( & d_lo[0], 0, [&,type,depth]( Ctx && h) -> Ctx {
                struct D { int type, depth; ~D() { Ctx i = make( & d_lo[1], 0, [=]( Ctx && g) -> Ctx { STASH( g, 1); boom( type, depth); return std::move( d_keep[1]); }); i = std::move( i).resume(); } };
                try { D d = { type, depth }; throw 7; } catch ( int) { _exit( 60); }
                return std::move( h); }); a = std::move( a).resume(); break;
        case 8: // out of a context that was unwound: local destructor is noexcept(false)
            d_expect = 0; a = make( & d_lo[0], 0, [=]( Ctx && h) -> Ctx { struct D { int t, d; ~D() noexcept( false) { boom( t, d); } } d = { type, depth }; for (;;) h = std::move( h).resume(); return std::move( h); });
            a = std::move( a).resume(); { Ctx x = std::move( a); } break;
        default: // throw after having been entered by the end of another context
            d_expect = 1; a = make( & d_lo[1], 0, [=]( Ctx && h) -> Ctx {
#ifdef USE_CALLCC
                h = std::move( h).resume();
#endif
                STASH( h, 0); boom( type, depth); return std::move( d_keep[0]); });
            b = make( & d_lo[0], 0, [&]( Ctx && h) -> Ctx { STASH( h, 3); return std::move( a); }); b = std::move( b).resume(); break;
        }
    } catch ( ...) { _exit( 60); }   // it reached another context
    _exit( 61);                      // it vanished
}
static void death( int sit, int type, int depth) {
    fflush( 0); pid_t p = fork(); if ( p < 0) _exit( 78);
    if ( p == 0) { rlimit r = { 0, 0 }; setrlimit( RLIMIT_CORE, & r); signal( SIGABRT, SIG_DFL); alarm( 20); std::set_terminate( on_terminate); scenario( sit, type, depth); _exit( 62); }
    int st; if ( waitpid( p, & st, 0) != p) _exit( 78);
    int x = WIFEXITED( st) ? WEXITSTATUS( st) : -1;
    REQUIRE( x == 50, "terminate", "exception of type %d escaping in situation %d (depth %d): %s (status %x)", type, sit, depth,
        x == 51 ? "std::terminate called on another stack" : x == 60 ? "it propagated into another context" : x == 61 ? "it disappeared" : "process ended without std::terminate", st);
    ++n_death; cov.add( mix( mix( sit, type % 12), depth));
}
// ------------------------------------------------------------ stack walks
struct Walk { char * lo, * hi; int frames; bool outside, ended_early; uintptr_t last; };
static _Unwind_Reason_Code on_frame( _Unwind_Context * c, void * arg) {
    Walk * w = (Walk*) arg; uintptr_t cfa = _Unwind_GetCFA( c);
    if ( cfa < (uintptr_t) w->lo || cfa > (uintptr_t) w->hi) w->outside = true;
    w->last = cfa;
    if ( ++w->frames > 2000) return _URC_FATAL_PHASE1_ERROR;
    return _URC_NO_REASON;
}
static void NOINLINE walk( char * lo, const char * where) {
    Walk w = { stack_of( lo), stack_of( lo) + size_of( lo), 0, false, false, 0 };
    int r = _Unwind_Backtrace( on_frame, & w);
    REQUIRE( r == _URC_END_OF_STACK, "stack-walk", "%s: walk of a context's stack ended with code %d after %d frames", where, r, w.frames);
    REQUIRE( ! w.outside, "stack-walk", "%s: walk left the stack of the context (frame address %p)", where, (void*) w.last);
    REQUIRE( w.frames < 2000 && w.frames > 0, "stack-walk", "%s: %d frames", where, w.frames);
    void * pcs[1024]; int n = backtrace( pcs, 1024);
    REQUIRE( n > 0 && n < 1024, "stack-walk", "%s: backtrace() found %d frames", where, n);
    // (the outermost frame may be counted differently by the two walkers)
    REQUIRE( n - w.frames >= -2 && n - w.frames <= 2, "stack-walk", "%s: backtrace() found %d frames, the unwinder %d", where, n, w.frames);
    ++n_walks; n_frames += w.frames;
}
static void NOINLINE walk_deep( char ** lo, int d, const char * w) { volatile char b[64]; b[0] = (char) d; if ( d) walk_deep( lo, d - 1, w); else walk( * lo, w); b[1] = b[0]; }
static void NOINLINE throw_deep( int d, int v) { volatile char b[64]; b[0] = (char) d; if ( d) throw_deep( d - 1, v); else throw v; b[1] = b[0]; }
struct WalkInDtor { char ** lo; ~WalkInDtor() { walk_deep( lo, 3, "destructor during unwinding"); try { throw_deep( 4, 3); } catch ( int v) { REQUIRE( v == 3, "exc", "wrong exception"); ++n_exc; } } };
static void walks() {
    for ( int i = 0; i < 20; ++i) {
        char * lo = 0; size_t off = R.below( 3) ? R.below( 600) : 0; int d = R.below( 40); char ** lp = & lo;
        Ctx a = make( & lo, off, [=]( Ctx && h) -> Ctx {
            walk( * lp, "entry"); walk_deep( lp, d, "deep");
            for ( int k = 0; k < 3; ++k) {
                try { throw_deep( d, k); } catch ( int v) { REQUIRE( v == k, "exc", "wrong exception"); ++n_exc; }
                { WalkInDtor w = { lp }; h = std::move( h).resume(); }
                walk_deep( lp, d, "after a switch");
            }
            return std::move( h); });
        int steps = R.below( 4);
        for ( int k = 0; k < steps && a; ++k) {
            if ( R.below( 2)) a = std::move( a).resume();
            else a = std::move( a).resume_with( [=]( Ctx && h) -> Ctx { walk_deep( lp, d, "function on top"); try { throw_deep( d, 9); } catch ( int) { ++n_exc; } return std::move( h); });
        }
        ++n_ctx;
    }
}
#if ! defined(BOOST_USE_UCONTEXT) && ! defined(BOOST_USE_WINFIB) && ! defined(CETEMU)
static char * r_lo;
static void raw_fn( ctx::detail::transfer_t t) {
    for (;;) { walk_deep( & r_lo, 5, "raw context"); try { throw_deep( 6, 5); } catch ( int) { ++n_exc; } t = ctx::detail::jump_fcontext( t.fctx, 0); }
}
static ctx::detail::transfer_t raw_top( ctx::detail::transfer_t t) { walk_deep( & r_lo, 5, "raw ontop function"); try { throw_deep( 6, 5); } catch ( int) { ++n_exc; } return t; }
static void raw_walks() {
    Fenced f = { & r_lo, R.below( 100) }; ctx::stack_context s = f.allocate();
    ctx::detail::transfer_t t = { ctx::detail::make_fcontext( s.sp, s.size, raw_fn), 0 };
    for ( int i = 0; i < 4; ++i) t = i && R.below( 2) ? ctx::detail::ontop_fcontext( t.fctx, 0, raw_top) : ctx::detail::jump_fcontext( t.fctx, 0);
    f.deallocate( s); ++n_ctx;
}
#else
static void raw_walks() {}
#endif
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 5);
    g_phase = "exceptions"; { void * p[4]; backtrace( p, 4); }
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        for ( int s = 0; s < NSIT; ++s) {
#ifdef CETEMU
            if ( s == 6) continue;              // (no threads there)
#endif
            if ( e == 0) for ( int t = 0; t < 12; ++t) death( s, t, R.below( 20)); else death( s, R.below( 12), R.below( 60)); }
        walks(); for ( int i = 0; i < 5; ++i) raw_walks();
    }
    stat( "escapes_observed_to_terminate", n_death); stat( "stack_walks", n_walks); stat( "frames_walked", n_frames); stat( "exceptions_caught", n_exc); stat( "exc_contexts", n_ctx); stat( "distinct_escapes", cov.n);
    sample( "exceptions seed=%llu episodes=%llu", (unsigned long long) seed, (unsigned long long) eps);
#ifdef CETEMU
    cet_report();
#endif
    fflush( 0); _exit( 0);
}
#ifdef CETEMU
extern "C" int cet_regions_may_stay() { return 1; }
#endif
