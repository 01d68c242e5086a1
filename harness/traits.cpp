// stack_traits against the operating system's own answers (C13), each case in a fresh process:
// hard limit set before the first question, questions asked in random order, by random threads, inside contexts, all at once.
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <atomic>
#include <csignal>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <vector>
namespace ctx = boost::context; typedef ctx::stack_traits T;
struct Shared { std::atomic< unsigned long long > asks, procs, bounded, unbounded, sigs, threads; };
static Shared * S;
struct Expect { bool unb; rlim_t max; size_t page; };
static size_t system_min() {
    size_t m = 2048; long s = -1;
#ifdef _SC_MINSIGSTKSZ
    s = sysconf( _SC_MINSIGSTKSZ);
#endif
    if ( s > 0 && (size_t) s > m) m = s;
#ifdef AT_MINSIGSTKSZ
    size_t a = getauxval( AT_MINSIGSTKSZ); if ( a > m) m = a;
#endif
    return m;
}
static void ask( int q, Expect const& e) {
    ++S->asks;
    switch ( q) {
    case 0: { bool u = T::is_unbounded(); REQUIRE( u == e.unb, "traits", "is_unbounded()=%d, hard limit is %llx", (int) u, (unsigned long long) e.max); break; }
    case 1: { size_t p = T::page_size(); REQUIRE( p == e.page, "traits", "page_size()=%zu, system says %zu", p, e.page); break; }
    case 2: { size_t d = T::default_size(), m = T::minimum_size(); REQUIRE( d >= m, "traits", "default_size()=%zu < minimum_size()=%zu", d, m); static std::atomic< size_t > first( 0); size_t z = 0; first.compare_exchange_strong( z, d); REQUIRE( first.load() == d, "traits", "default_size() changed"); break; }
    case 3: { size_t m = T::minimum_size(); REQUIRE( m >= system_min(), "traits", "minimum_size()=%zu, the system needs %zu", m, system_min()); static std::atomic< size_t > first( 0); size_t z = 0; first.compare_exchange_strong( z, m); REQUIRE( first.load() == m, "traits", "minimum_size() changed"); break; }
    default: if ( ! e.unb) { size_t m = T::maximum_size(); REQUIRE( m == e.max, "traits", "maximum_size()=%zu, hard limit is %llu", m, (unsigned long long) e.max); } break;
    }
}
static void ask_all( Rng & r, Expect const& e) { for ( int i = 0; i < 12; ++i) ask( i == 0 ? r.below( 5) : r.below( 5), e); for ( int i = 0; i < 5; ++i) ask( i, e); }
template< typename F > static Ctx mk( F f) {
#ifdef USE_CALLCC
    return ctx::callcc( f);
#else
    Ctx c{ f }; return std::move( c).resume();
#endif
}
static void in_context( uint64_t seed, Expect const& e) {
    Ctx c = mk( [&]( Ctx && h) -> Ctx { Rng r( seed); ask_all( r, e); h = std::move( h).resume(); ask_all( r, e); return std::move( h); });
    Rng r( seed + 1); ask_all( r, e); c = std::move( c).resume();
}
static volatile sig_atomic_t hits; static void on_sig( int) { ++hits; }
static bool all_touchable( ctx::stack_context const& s) { for ( char * p = (char*) s.sp - s.size; p < (char*) s.sp; p += 512) { * p = 1; if ( * p != 1) return false; } ((char*) s.sp)[-1] = 1; return true; }
struct MyTraits { static bool is_unbounded() BOOST_NOEXCEPT { return true; } static std::size_t page_size() BOOST_NOEXCEPT { return T::page_size(); } static std::size_t default_size() BOOST_NOEXCEPT { return 77 * 1024; }
    static std::size_t minimum_size() BOOST_NOEXCEPT { return 8 * 1024; } static std::size_t maximum_size() BOOST_NOEXCEPT { return 1 << 30; } };
template< typename A > static void default_alloc( size_t want, const char * n, bool exact) {
    A a; ctx::stack_context s = a.allocate();
    REQUIRE( exact ? s.size == want : s.size >= want && s.size < want + 3 * T::page_size(), "traits", "%s: default stack has %zu bytes, traits say %zu", n, s.size, want);
    if ( exact) REQUIRE( all_touchable( s), "traits", "%s", n);
    a.deallocate( s);
}
static void child( uint64_t seed, int kind) {
    Rng r( seed);
    rlimit l; getrlimit( RLIMIT_STACK, & l);
    static const rlim_t vals[] = { 0, 65536, 131072, 256 * 1024, 1 << 20, 8 << 20, ( (rlim_t) 1 << 32) - 1, (rlim_t) 1 << 32, ( (rlim_t) 1 << 40) + 12345, (rlim_t) 1 << 63, RLIM_INFINITY - 1, RLIM_INFINITY };
    rlim_t v = kind < 12 ? vals[kind] : r.below( 4) ? (rlim_t) ( r.next() >> r.below( 50)) : RLIM_INFINITY; if ( v < 65536) v = 65536 + v;
#if defined(VERIF_TSAN) || defined(VERIF_ASAN)
    if ( v < ( 4 << 20)) v += 4 << 20;
#endif
    if ( l.rlim_max != RLIM_INFINITY && v > l.rlim_max) v = l.rlim_max;       // (not allowed to raise it)
    if ( l.rlim_cur == RLIM_INFINITY || l.rlim_cur > v) l.rlim_cur = v;
    l.rlim_max = v; if ( setrlimit( RLIMIT_STACK, & l)) _exit( 78);
    getrlimit( RLIMIT_STACK, & l);
    Expect e = { l.rlim_max == RLIM_INFINITY, l.rlim_max, (size_t) sysconf( _SC_PAGESIZE) };
    ++( e.unb ? S->unbounded : S->bounded);
    int how = (int) r.below( 4), n = 2 + (int) r.below( 7);
    if ( how == 0) ask_all( r, e);
    else if ( how == 1) in_context( r.next(), e);
    else {
        // first questions asked at the same moment
        std::atomic< int > ready( 0); std::vector< std::thread > th;
        for ( int k = 0; k < n; ++k) { uint64_t s = r.next(); bool c = how == 3 && r.below( 2); ++S->threads;
            th.push_back( std::thread( [&,s,c]() { ++ready; while ( ready.load() < n) {} if ( c) in_context( s, e); else { Rng q( s); ask_all( q, e); } })); }
        for ( auto & t : th) t.join();
        ask_all( r, e);
    }
    bool pre = e.unb || e.max >= T::default_size();        // documented precondition
    if ( pre) default_alloc< ctx::fixedsize_stack >( T::default_size(), "fixedsize_stack", true);
    if ( pre) default_alloc< ctx::pooled_fixedsize_stack >( T::default_size(), "pooled_fixedsize_stack", false);
    if ( pre) default_alloc< ctx::protected_fixedsize_stack >( T::default_size(), "protected_fixedsize_stack", false);
    default_alloc< ctx::basic_fixedsize_stack< MyTraits > >( 77 * 1024, "basic_fixedsize_stack<MyTraits>", true);
    default_alloc< ctx::basic_pooled_fixedsize_stack< MyTraits > >( 77 * 1024, "basic_pooled_fixedsize_stack<MyTraits>", false);
    default_alloc< ctx::basic_protected_fixedsize_stack< MyTraits > >( 77 * 1024, "basic_protected_fixedsize_stack<MyTraits>", false);
    // a default sized stack carries an ordinary program including a signal handler
    signal( SIGUSR1, on_sig);
    char out[64]; Ctx c = mk( [&]( Ctx && h) -> Ctx { snprintf( out, sizeof out, "%.10f %s", 1.0 / (double) r.below( 9), "x"); raise( SIGUSR1); h = std::move( h).resume(); raise( SIGUSR1); try { throw std::string( "e"); } catch ( std::string const&) {} return std::move( h); });
    c = std::move( c).resume(); REQUIRE( hits == 2, "traits", "signal lost"); S->sigs += 2;
    ask_all( r, e); ++S->procs;
    fflush( 0); _exit( 0);
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 60);
    g_phase = "traits"; S = (Shared*) mmap( 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for ( uint64_t i = 0; i < eps; ++i) {
        g_case = i; fflush( 0); pid_t p = fork(); if ( p < 0) return 78;
        if ( ! p) { alarm( 60); child( mix( seed, i), (int) i); }
        int st; if ( waitpid( p, & st, 0) != p) return 78;
        if ( WIFEXITED( st) && WEXITSTATUS( st) == 0) continue;
        if ( WIFEXITED( st)) _exit( WEXITSTATUS( st));
        oracle_fail( "traits", "process asking for the stack traits died, status %x", st);
    }
    stat( "questions", S->asks); stat( "processes", S->procs); stat( "bounded_processes", S->bounded); stat( "unbounded_processes", S->unbounded); stat( "threads_asking_at_once", S->threads); stat( "signals_on_default_stacks", S->sigs);
    sample( "traits seed=%llu processes=%llu", (unsigned long long) seed, (unsigned long long) eps);
    return 0;
}
