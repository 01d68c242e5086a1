// Large numbers and large sizes: what holds for ten contexts, resumes, threads, copies or kilobytes has to hold for a hundred thousand (a counter that is too narrow,
// a size that is truncated, a table of fixed length would show here only).
//   live      contexts alive at the same time, resumed, finished and unwound in random order
//   nest      contexts owning contexts owning contexts: unwound from the outermost one; termination chains of the same length
//   resumes   one context resumed, resumed with functions, thrown into
//   threads   one context handed through a sequence of threads
//   copies    copies of a pooled allocator
//   sizes     stacks of megabytes up to more than 4 GB
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <cerrno>
#include <fcntl.h>
#include <malloc.h>
#include <memory>
#include <new>
#include <stdexcept>
#include <sys/mman.h>
#include <thread>
#include <vector>
namespace ctx = boost::context;
static Rng R( 1);
static HashSet cov;
static unsigned long long n_ctx, n_switch, n_unwound, n_finished, n_thread, n_copies, n_big, n_throw, n_ontop;

template< typename A, typename Fn > static Ctx make( A && a, Fn && fn) {
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, std::forward< A >( a), [fn]( Ctx && c) mutable { c = std::move( c).resume(); return fn( std::move( c)); });
#else
    Ctx f( std::allocator_arg, std::forward< A >( a), std::forward< Fn >( fn)); return f;
#endif
}

// stacks out of one mapping, every one given out once; each release is recorded
struct Arena { char * p; size_t n, sz, next; std::vector< unsigned char > state; size_t live;
    Arena( size_t n_, size_t sz_) : n( n_), sz( sz_), next( 0), state( n_, 0), live( 0) { p = (char*) mmap( 0, n * sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if ( p == MAP_FAILED) _exit( 78); }
    ~Arena() { munmap( p, n * sz); }
};
struct ArenaSA { Arena * a;
    ctx::stack_context allocate() { REQUIRE( a->next < a->n, "harness", "arena empty"); size_t i = a->next++; a->state[i] = 1; ++a->live; ctx::stack_context s; s.sp = a->p + ( i + 1) * a->sz; s.size = a->sz; return s; }
    void deallocate( ctx::stack_context & s) { size_t off = (char*) s.sp - a->p; REQUIRE( off % a->sz == 0 && off && off / a->sz <= a->n && s.size == a->sz, "release", "stack released with sp %p size %zu", s.sp, s.size);
        size_t i = off / a->sz - 1; REQUIRE( a->state[i] == 1, "release", "stack %zu released in state %d", i, a->state[i]); a->state[i] = 2; --a->live; UNSHADOW( a->p + i * a->sz, a->sz); madvise( a->p + i * a->sz, a->sz, MADV_DONTNEED); }
};
enum { SMALL = 16384 };

static long g_live;
struct Guard { uint64_t v, w; explicit Guard( uint64_t x) : v( x), w( ~x) { ++g_live; } ~Guard() { REQUIRE( v == ~w, "locals", "local of a context changed (%llx)", (unsigned long long) v); --g_live; v = 0; } };

static void mode_live( size_t n) {
    Arena a( n, SMALL); std::vector< Ctx > h( n); std::vector< unsigned > steps( n, 0), limit( n); static uint64_t said; static size_t who; g_live = 0;
    for ( size_t i = 0; i < n; ++i) {
        limit[i] = 1 + R.below( 3);
        unsigned lim = limit[i];
        h[i] = make( ArenaSA{ & a }, [i,lim]( Ctx && c) { Guard g( i * 77 + 5); Ctx back = std::move( c); for ( unsigned k = 0; k < lim; ++k) { who = i; said = mix( i, k); back = std::move( back).resume(); } who = i; said = mix( i, 1000); return back; });
        REQUIRE( h[i], "control", "context %zu not created", i); ++n_ctx;
    }
    REQUIRE( a.live == n && g_live == 0, "control", "%zu stacks, %ld locals", a.live, g_live);
    std::vector< size_t > alive( n); for ( size_t i = 0; i < n; ++i) alive[i] = i;
    size_t gone = 0;
    while ( ! alive.empty()) {
        size_t j = R.next() % alive.size(), i = alive[j]; g_case = i;
        if ( gone < n / 3 ? R.below( 40) == 0 : R.below( 3) == 0) { bool started = steps[i] > 0; long l = g_live; { Ctx d = std::move( h[i]); } REQUIRE( g_live == l - started, "unwind", "destroying context %zu: %ld locals instead of %ld", i, g_live, l - started); ++n_unwound; }
        else {
            who = n; h[i] = std::move( h[i]).resume(); ++n_switch; REQUIRE( who == i && said == mix( i, steps[i] < limit[i] ? steps[i] : 1000), "control", "resumed context %zu (step %u), context %zu ran", i, steps[i], who);
            if ( ++steps[i] <= limit[i]) { REQUIRE( h[i], "handle", "context %zu lost", i); continue; }
            REQUIRE( ! h[i], "handle", "context %zu did not end", i); ++n_finished; h[i] = Ctx();
        }
        ++gone; REQUIRE( a.state[i] == 2 && a.live == n - gone, "release", "context %zu ended: its stack is in state %d, %zu stacks live instead of %zu", i, a.state[i], a.live, n - gone);
        alive[j] = alive.back(); alive.pop_back(); cov.add( mix( gone / 64, i));
    }
    REQUIRE( g_live == 0, "unwind", "%ld locals left", g_live);
}

static size_t g_deepest, g_unw, g_N;
struct Order { size_t d; explicit Order( size_t x) : d( x) { ++g_live; } ~Order() { REQUIRE( d == g_unw, "unwind-order", "level %zu unwound when level %zu was due", d, g_unw); ++g_unw; --g_live; } };
static Ctx nest_fn( Arena * a, size_t d, Ctx && c, bool unwind) {
    Ctx back = std::move( c);
    if ( unwind) {
        Ctx child;
        Order o( d);                       // destroyed before the child
        if ( d + 1 < g_N) { child = make( ArenaSA{ a }, [a,d,unwind]( Ctx && x) { return nest_fn( a, d + 1, std::move( x), unwind); }); child = std::move( child).resume(); ++n_switch; REQUIRE( child, "control", "level %zu lost its child", d); }
        else g_deepest = d;
        back = std::move( back).resume(); ++n_switch; oracle_fail( "control", "level %zu resumed", d);
    }
    Order o( g_N - 1 - d);
    if ( d + 1 < g_N) { Ctx child = make( ArenaSA{ a }, [a,d,unwind]( Ctx && x) { return nest_fn( a, d + 1, std::move( x), unwind); }); child = std::move( child).resume(); ++n_switch; REQUIRE( ! child, "handle", "child of level %zu not ended", d); }
    else g_deepest = d;
    return back;
}
static void mode_nest( size_t n) {
    for ( int unwind = 0; unwind < 2; ++unwind) {
        Arena a( n, SMALL); g_N = n; g_deepest = g_unw = 0; g_live = 0;
        { Ctx root = make( ArenaSA{ & a }, [&a,unwind]( Ctx && x) { return nest_fn( & a, 0, std::move( x), unwind); }); root = std::move( root).resume(); ++n_switch;
          REQUIRE( g_deepest == n - 1, "control", "deepest level %zu", g_deepest); REQUIRE( bool( root) == bool( unwind), "handle", "root"); }
        REQUIRE( g_unw == n && g_live == 0 && a.live == 0, "unwind", "%zu of %zu levels ended, %ld locals, %zu stacks left", g_unw, n, g_live, a.live); n_ctx += n; ( unwind ? n_unwound : n_finished) += n; cov.add( unwind);
    }
    // each context is ended by the end of the one before: fn i returns the handle of context i+1
    Arena a( n, SMALL); size_t ran = 0; std::vector< Ctx > h( n); Ctx mainh; bool done = false;
    for ( size_t i = 0; i < n; ++i) h[i] = make( ArenaSA{ & a }, [&,i]( Ctx && x) { if ( i == 0) mainh = std::move( x); else REQUIRE( ! x, "handle", "context %zu got a handle although the one before has ended", i); REQUIRE( ran == i, "control", "context %zu runs as number %zu", i, ran); ++ran; if ( i + 1 < n) return std::move( h[i + 1]); done = true; return std::move( mainh); });
    Ctx r = std::move( h[0]).resume(); REQUIRE( ! r, "handle", "chain ended with a handle"); r = Ctx(); REQUIRE( done && ran == n && a.live == 0, "control", "chain: %zu of %zu ran, %zu stacks left", ran, n, a.live); n_ctx += n; n_finished += n; n_switch += n;
}

struct Bump { uint64_t v; };
static void mode_resumes( size_t n) {
    uint64_t cnt = 0, caught = 0, tops = 0; bool ended = false;
    Ctx f = make( ctx::fixedsize_stack( 65536), [&]( Ctx && c) { Ctx back = std::move( c); for (;;) { Guard g( cnt); try { back = std::move( back).resume(); } catch ( Bump const& b) { REQUIRE( b.v == caught, "exception", "value %llu instead of %llu", (unsigned long long) b.v, (unsigned long long) caught); ++caught; } ++cnt; if ( ended) return back; } });
    f = std::move( f).resume();
    uint64_t want = 0, wc = 0, wt = 0; Ctx * kept = nullptr; (void) kept;
    for ( size_t i = 0; i < n; ++i) {
        g_case = i; REQUIRE( f, "handle", "lost after %zu resumes", i);
        if ( i % 3 == 1) { uint64_t arg = i; f = std::move( f).resume_with( [&tops,arg,i]( Ctx && c) { REQUIRE( arg == i && c, "ontop", "argument"); ++tops; return std::move( c); }); ++wt; ++n_ontop; }
        else f = std::move( f).resume();
        ++want; ++n_switch; REQUIRE( cnt == want && tops == wt && caught == wc, "control", "after %zu resumes the context counted %llu", i + 1, (unsigned long long) cnt);
    }
    // throwing from a function on top: the thrower leaves its resumer's handle in a slot outside
    for ( size_t i = 0; i < n / 4; ++i) {
        g_case = i; uint64_t v = wc; 
        static Ctx slot; 
        // the context gets its way back by the slot: the handle of the resumer must outlive the exception
        struct Fix { static Ctx none( Ctx && c) { return std::move( c); } }; (void) Fix::none;
        try { Ctx g = make( ctx::fixedsize_stack( 65536), [&]( Ctx && c) { Ctx back = std::move( c); try { back = std::move( back).resume(); } catch ( Bump const& b) { REQUIRE( b.v == v, "exception", "value"); ++caught; } return std::move( slot); });
              g = std::move( g).resume(); ++n_switch; g = std::move( g).resume_with( [v]( Ctx && c) -> Ctx { slot = std::move( c); throw Bump{ v }; }); REQUIRE( ! g, "handle", "context not ended after the exception"); }
        catch ( ... ) { oracle_fail( "exception", "exception left the context"); }
        ++wc; ++n_throw; ++n_ctx; n_switch += 2; REQUIRE( caught == wc, "exception", "%llu caught instead of %llu", (unsigned long long) caught, (unsigned long long) wc);
    }
    ended = true; f = std::move( f).resume(); REQUIRE( ! f, "handle", "not ended"); ++n_ctx; cov.add( n);
}

static void mode_threads( size_t n) {
    uint64_t cnt = 0; bool ended = false;
    Ctx f = make( ctx::fixedsize_stack( 65536), [&]( Ctx && c) { Ctx back = std::move( c); for (;;) { Guard g( cnt); back = std::move( back).resume(); ++cnt; if ( ended) return back; } });
    f = std::move( f).resume();
    for ( size_t i = 0; i < n; ++i) {
        g_case = i;
        std::thread( [&] { uint64_t tops = 0;
            if ( i % 2) f = std::move( f).resume(); else f = std::move( f).resume_with( [&tops]( Ctx && c) { ++tops; return std::move( c); });
            REQUIRE( f && cnt == i + 1 && tops == ( i + 1) % 2, "control", "thread number %zu: the context counted %llu", i, (unsigned long long) cnt);
            if ( i % 64 == 0) { int x = 0; { Ctx own = make( ctx::fixedsize_stack( 32768), [&x]( Ctx && c) { Ctx b = std::move( c); Guard g( 3); b = std::move( b).resume(); x = 7; return b; }); own = std::move( own).resume(); if ( i % 128) { own = std::move( own).resume(); REQUIRE( x == 7 && ! own, "control", "own context of a thread"); } } n_ctx += 1; }
        }).join(); ++n_thread; ++n_switch;
    }
    REQUIRE( g_live == 1, "unwind", "%ld locals", g_live);
    ended = true; f = std::move( f).resume(); REQUIRE( ! f && g_live == 0, "handle", "not ended"); ++n_ctx; cov.add( n);
}

static void mode_copies( size_t n) {
    struct mallinfo2 m0 = mallinfo2();
    {
        std::vector< ctx::pooled_fixedsize_stack > v; v.reserve( n); 
        { ctx::pooled_fixedsize_stack first( 8192, 8, 64); for ( size_t i = 0; i < n; ++i) v.push_back( first); }
        n_copies += n;
        std::vector< ctx::stack_context > st; for ( int i = 0; i < 64; ++i) { st.push_back( v[R.next() % n].allocate()); memset( (char*) st.back().sp - st.back().size, i, st.back().size); }
        // all but a few copies go, in pieces, with stacks in use
        while ( v.size() > 2) { size_t k = 1 + R.next() % v.size(); if ( k >= v.size()) k = v.size() - 2; v.resize( v.size() - k, v[0]); for ( size_t i = 0; i < st.size(); ++i) for ( size_t b = 0; b < st[i].size; b += 512) REQUIRE( ((char*) st[i].sp - st[i].size)[b] == (char) i, "pool-lifetime", "stack %zu of the pool damaged when %zu copies were left", i, v.size()); cov.add( k); }
        ctx::pooled_fixedsize_stack one = v[0]; v.clear();
        for ( auto & s : st) one.deallocate( s);
        std::vector< Ctx > h; for ( int i = 0; i < 200; ++i) { h.push_back( make( one, []( Ctx && c) { Ctx b = std::move( c); b = std::move( b).resume(); return b; })); ++n_ctx; }
    }
    struct mallinfo2 m1 = mallinfo2(); REQUIRE( m1.uordblks + m1.hblkhd < m0.uordblks + m0.hblkhd + 200000, "pool-release", "%zu bytes left after the last copy is gone", ( m1.uordblks + m1.hblkhd) - ( m0.uordblks + m0.hblkhd));
}

static int pfd[2];
static bool readable( char * p) { char c; if ( write( pfd[1], p, 1) != 1) return false; if ( read( pfd[0], & c, 1) != 1) _exit( 78); return true; }
static size_t vmsize() { FILE * f = fopen( "/proc/self/statm", "r"); unsigned long v = 0; if ( ! f || fscanf( f, "%lu", & v) != 1) _exit( 78); fclose( f); return v * 4096; }
struct HugeSA { ctx::stack_context sc; int * released; ctx::stack_context allocate() { return sc; } void deallocate( ctx::stack_context & s) { REQUIRE( s.sp == sc.sp && s.size == sc.size, "release", "stack of %zu bytes released as sp %p size %zu", sc.size, s.sp, s.size); ++ * released; } };
template< size_t S > struct Payload { unsigned char b[S]; };
// what runs in the context: its frame is near the top, the lowest usable byte can be used, callee data intact
template< typename A > static void big_ctx( A a, char * lo, char * sp, size_t size, const char * what) {
    uint64_t tag = R.next(); bool ok = false;
    { Ctx f = make( a, [=,&ok]( Ctx && c) { Ctx back = std::move( c); char here; volatile char * v = & here; * v = 1;
          if ( sp) { REQUIRE( & here < sp && & here > sp - 40000, "stack-usable", "%s of %zu bytes: the first frame runs %td bytes below the top", what, size, sp - & here); lo[0] = 5; lo[size / 2] = 6; }
          back = std::move( back).resume();
          if ( sp) REQUIRE( lo[0] == 5 && lo[size / 2] == 6, "stack-usable", "%s of %zu bytes: memory of the suspended context changed", what, size);
          uint64_t t = tag; REQUIRE( t == tag, "locals", "captures"); ok = true; return back; });
      f = std::move( f).resume(); REQUIRE( f, "handle", "%s of %zu bytes", what, size); f = std::move( f).resume(); REQUIRE( ! f && ok, "control", "%s of %zu bytes", what, size); n_switch += 2; }
    ++n_ctx;
}
static bool possible( size_t n) { void * p = mmap( 0, 2 * n + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if ( p == MAP_FAILED) return false; munmap( p, 2 * n + 65536); return true; }
static void one_size( size_t n) {
    g_case = n; size_t pg = 4096, v0 = vmsize();
    try { ctx::fixedsize_stack a( n); ctx::stack_context s = a.allocate(); char * lo = (char*) s.sp - s.size; REQUIRE( s.size >= n && s.size < n + 2 * pg, "alloc-size", "fixedsize_stack: %zu bytes for a request of %zu", s.size, n);
          REQUIRE( vmsize() >= n, "alloc-size", "less memory than a stack of %zu bytes", n); lo[0] = 1; lo[s.size - 1] = 2; lo[n / 2] = 3; REQUIRE( lo[0] == 1 && lo[s.size - 1] == 2 && lo[n / 2] == 3, "alloc-usable", "bytes of a stack of %zu", n); a.deallocate( s); ++n_big;
          big_ctx( ctx::fixedsize_stack( n), nullptr, nullptr, n, "fixedsize_stack");
    } catch ( std::bad_alloc const&) { if ( possible( n)) oracle_fail( "bad-alloc", "fixedsize_stack: %zu bytes not obtained", n); }
    try { ctx::protected_fixedsize_stack a( n); ctx::stack_context s = a.allocate(); char * lo = (char*) s.sp - s.size; REQUIRE( s.size >= n + pg && s.size < n + 3 * pg, "alloc-size", "protected_fixedsize_stack: %zu bytes for a request of %zu", s.size, n);
          REQUIRE( ! readable( lo) && ! readable( lo + pg - 1) && readable( lo + pg) && readable( lo + s.size - 1), "guard-page", "guard page of a stack of %zu bytes", n); lo[pg] = 1; lo[s.size - 1] = 2; lo[s.size / 2] = 3; REQUIRE( lo[pg] == 1, "alloc-usable", "bytes of a stack of %zu", n);
          char * sp = (char*) s.sp; size_t size = s.size; a.deallocate( s); REQUIRE( ! readable( lo + pg) && ! readable( sp - 1) && ! readable( lo + size / 2), "release-missing", "memory of a released stack of %zu bytes is still mapped", n); ++n_big;
          big_ctx( ctx::protected_fixedsize_stack( n), nullptr, nullptr, n, "protected_fixedsize_stack");
    } catch ( std::bad_alloc const&) { if ( possible( n)) oracle_fail( "bad-alloc", "protected_fixedsize_stack: %zu bytes not obtained", n); }
    if ( n >= 8192 && ( ctx::stack_traits::is_unbounded() || ctx::stack_traits::maximum_size() >= n)) try { ctx::pooled_fixedsize_stack a( n, 1); ctx::stack_context s = a.allocate(), t = a.allocate(); REQUIRE( s.size >= n && s.size < n + 2 * pg, "alloc-size", "pooled_fixedsize_stack: %zu bytes for a request of %zu", s.size, n);
          char * l1 = (char*) s.sp - s.size, * l2 = (char*) t.sp - t.size; REQUIRE( l1 >= (char*) t.sp || l2 >= (char*) s.sp, "alloc-overlap", "two pooled stacks of %zu bytes overlap", n); l1[0] = l1[s.size - 1] = 4; l2[0] = l2[t.size - 1] = 5; REQUIRE( l1[0] == 4 && l1[s.size - 1] == 4, "alloc-overlap", "two pooled stacks of %zu bytes overlap", n); a.deallocate( t); a.deallocate( s); ++n_big;
          big_ctx( a, nullptr, nullptr, n, "pooled_fixedsize_stack");
    } catch ( std::bad_alloc const&) { if ( possible( n)) oracle_fail( "bad-alloc", "pooled_fixedsize_stack: %zu bytes not obtained", n); }
    if ( n >= 65536) {
        char * m = (char*) mmap( 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if ( m == MAP_FAILED) return;
        ctx::stack_context sc; sc.sp = m + n; sc.size = n; int rel = 0;
        big_ctx( HugeSA{ sc, & rel }, m, m + n, n, "own stack"); REQUIRE( rel == 1, "release", "released %d times", rel);
        size_t res = 1 + R.below( 5000); memset( m + n - res, 0x5A, res); bool ok = false;
        { 
#ifdef USE_CALLCC
          Ctx f = ctx::callcc( std::allocator_arg, ctx::preallocated( m + n - res, n - res, sc), HugeSA{ sc, & rel }, [&]( Ctx && c) { char h; REQUIRE( & h < m + n - res && & h > m + n - res - 40000, "stack-usable", "preallocated, %zu bytes: first frame %td below the top", n, m + n - & h); m[0] = 1; ok = true; return std::move( c); });
#else
          Ctx f( std::allocator_arg, ctx::preallocated( m + n - res, n - res, sc), HugeSA{ sc, & rel }, [&]( Ctx && c) { char h; REQUIRE( & h < m + n - res && & h > m + n - res - 40000, "stack-usable", "preallocated, %zu bytes: first frame %td below the top", n, m + n - & h); m[0] = 1; ok = true; return std::move( c); }); f = std::move( f).resume();
#endif
        }
        REQUIRE( ok && rel == 2, "release", "preallocated: ran %d released %d", ok, rel - 1); for ( size_t i = 0; i < res; ++i) REQUIRE( m[n - res + i] == 0x5A, "prealloc", "byte above the preallocated pointer changed"); ++n_ctx;
        munmap( m, n);
    }
    size_t v1 = vmsize(); REQUIRE( v1 < v0 + ( n >= 8 << 20 ? n / 2 : 64 << 20), "leak", "stacks of %zu bytes: address space grew by %zu", n, v1 - v0); cov.add( n);
}
// callables as large as the default stack is
template< size_t S > static void big_callable() {
    g_case = S; static Payload< S > src; memset( src.b, 0x3C, S); Arena a( 1, ( S + 65536) & ~(size_t) 4095);
    { Payload< S > * p = new Payload< S >( src); struct Fn { Payload< S > pl; Ctx operator()( Ctx && c) { Ctx b = std::move( c); b = std::move( b).resume(); for ( size_t i = 0; i < S; ++i) REQUIRE( pl.b[i] == 0x3C, "callable-data", "byte %zu of a callable of %zu bytes changed", i, S); return b; } };
      std::unique_ptr< Fn > fn( new Fn{ * p }); delete p;
#ifdef USE_CALLCC
      Ctx f = ctx::callcc( std::allocator_arg, ArenaSA{ & a }, * fn);
#else
      Ctx f( std::allocator_arg, ArenaSA{ & a }, * fn); f = std::move( f).resume();
#endif
      memset( & fn->pl, 0, S); f = std::move( f).resume(); REQUIRE( ! f, "control", "not ended"); }
    REQUIRE( a.live == 0, "release", "stack left"); ++n_ctx; ++n_big; cov.add( S);
}
static void mode_sizes( size_t) {
    const size_t K = 1024, M = K * K, G = K * M;
    static const size_t s[] = { 65536, 131072 - 1, 131072, M, 8 * M + 1, 64 * M - 4096, 256 * M, G, 2 * G - 4096, 2 * G - 1, 2 * G, 2 * G + 1, 2 * G + 65536, 3 * G, 4 * G - 4096, 4 * G - 1, 4 * G, 4 * G + 1, 4 * G + 8192, 4 * G + 65536, 4 * G + 300000, 5 * G };
    for ( size_t n : s) one_size( n);
    for ( int i = 0; i < 12; ++i) one_size( 65536 + (size_t)( R.next() % ( (uint64_t) 1 << ( 20 + R.below( 13)))));
    big_callable< 65535 >(); big_callable< 65536 >(); big_callable< 65537 >(); big_callable< 131072 >(); big_callable< 1000003 >(); big_callable< 20 * 1024 * 1024 + 13 >();
}
int main( int argc, char ** argv) {
    if ( pipe( pfd)) return 78;
    mallopt( M_MMAP_THRESHOLD, 128 * 1024); fcntl( pfd[1], F_SETFL, O_NONBLOCK);
    uint64_t seed = arg_ull( argc, argv, "--seed", 1); size_t n = arg_ull( argc, argv, "--n", 70000); R = Rng( seed);
    std::string mode = "live"; for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], "--mode")) mode = argv[i + 1];
    static std::string ph; ph = "scale-" + mode; g_phase = ph.c_str();
    if ( mode == "live") mode_live( n); else if ( mode == "nest") mode_nest( n); else if ( mode == "resumes") mode_resumes( n); else if ( mode == "threads") mode_threads( n); else if ( mode == "copies") mode_copies( n); else if ( mode == "sizes") mode_sizes( n); else return 78;
    stat( "scale_contexts", n_ctx); stat( "scale_switches", n_switch); stat( "scale_unwound", n_unwound); stat( "scale_finished", n_finished); stat( "scale_threads", n_thread); stat( "scale_pool_copies", n_copies); stat( "scale_large_stacks", n_big); stat( "scale_exceptions", n_throw); stat( "scale_ontops", n_ontop); stat( "scale_distinct", cov.n);
    sample( "scale %s n=%zu seed=%llu", mode.c_str(), n, (unsigned long long) seed);
    fflush( 0); return 0;
}
